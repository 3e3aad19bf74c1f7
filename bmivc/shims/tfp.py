"""tensorflow_probability: distributions as opaque log-densities and draws, with the contracts of the
combinators used by the library (Mixture, TransformedDistribution, Blockwise)."""
from .. import loader, seq, sym
from .. import solve as sv_
from .. import terms as tm
from ..sym import ENG, SArr, Unsupported, asarr, t_, wrap
from ..terms import ONE, ZERO, add, app, eq, fresh, le, lt, neg, num, sub, sum_
from . import jax_
from .np_ import USED


def vec(d, f):
    """the vector (f(0), ..., f(d-1)) as a term, simplified under its index range"""
    q = fresh("q")
    c = ENG.ctx if ENG.ctx is not None else sv_.Ctx()
    return tm.arr(d, q, sv_.simp(f(q), c.plus(le(ZERO, q), lt(q, d))))


class Dist:
    """a distribution of vectors of length d; logp(f) is the log-density at the vector with entries f(k)"""
    _sym_plain = True
    d = None

    def logp(self, f):
        raise Unsupported(f"density of {type(self).__name__}")

    def draw(self, key, n, i, j):
        return app("tfpdraw", self.__sym_term__(), key, n, i, j)

    # ---- the interface of tfd.Distribution
    def log_prob(self, v):
        v = asarr(v)
        if v.ndim == 0:
            raise Unsupported("log_prob of a scalar")
        if v.dims[-1] is not self.d and not ENG.branch(eq(v.dims[-1], self.d)):
            raise Unsupported("log_prob of a vector of another length")
        if v.ndim == 1:
            return wrap(self.logp(lambda k: v.get((k,))), py=False)
        return SArr(v.dims[:-1], lambda i: self.logp(lambda k: v.get(tuple(i) + (k,))), jax=True)

    def prob(self, v):
        return sym.elementwise(lambda t: app("exp", t), self.log_prob(v))

    def sample(self, sample_shape=(), seed=None, name=None):
        if isinstance(sample_shape, (tuple, list, seq.VList)):
            sh = list(sample_shape)
        else:
            sh = [sample_shape]
        if seed is None:
            raise ValueError("a seed is required")
        k = jax_.keyterm(seed)
        jax_.consume(k, "tfp")
        if len(sh) != 1:
            raise Unsupported("sample shape")
        n = t_(sh[0])
        return SArr((n, self.d), lambda i: self.draw(k, n, i[0], i[1]), jax=True)

    @property
    def event_shape(self):
        return (wrap(self.d),)

    def event_shape_tensor(self):
        return SArr((ONE,), lambda i: self.d, jax=True, dtype="int")

    @property
    def batch_shape(self):
        return ()


class Opaque(Dist):
    """an arbitrary distribution"""

    def __init__(self, name, d, *idx):
        self.name, self.d, self.idx = name, t_(d), idx

    def __sym_term__(self):
        return app("dist:" + self.name, *self.idx)

    def __sym_subst__(self, m):
        return Opaque(self.name, seq.subst(self.d, m), *[seq.subst(t, m) for t in self.idx])

    def logp(self, f):
        return app("logp:" + self.name, *self.idx, vec(self.d, f))


class Located(Dist):
    """location-scale family: location vector, lower triangular factor of the scale matrix"""
    fam = None

    def _set(self, loc, scale, *par):
        if not isinstance(scale, LowerTriangular):
            raise Unsupported("scale operator")
        loc = asarr(loc)
        if loc.ndim != 1:
            raise Unsupported("batch of distributions")
        self.loc, self.tril, self.par = loc, scale.tril, par
        self.d = loc.dims[0]
        if self.tril.dims[0] is not self.d and not ENG.branch(eq(self.tril.dims[0], self.d)):
            raise ValueError("location and scale do not match")

    def __sym_term__(self):
        return app("dist:" + self.fam, *self.par, self.loc.term(), self.tril.term())

    def logp(self, f):
        return app("logp:" + self.fam, *self.par, self.loc.term(), self.tril.term(), vec(self.d, f))


class LowerTriangular:
    _sym_plain = True

    def __init__(self, tril, **k):
        if k:
            raise Unsupported("LinearOperatorLowerTriangular options")
        self.tril = asarr(tril)
        if self.tril.ndim != 2:
            raise Unsupported("batch of operators")


class MVN(Located):
    fam = "mvnormal"

    def __init__(self, loc=None, scale=None, **k):
        USED.add("tfd.MultivariateNormalLinearOperator")
        if k or loc is None or scale is None:
            raise Unsupported("MultivariateNormalLinearOperator options")
        self._set(loc, scale)


class MVT(Located):
    fam = "mvstudent"

    def __init__(self, df=None, loc=None, scale=None, **k):
        USED.add("tfd.MultivariateStudentTLinearOperator")
        if k or loc is None or scale is None or df is None:
            raise Unsupported("MultivariateStudentTLinearOperator options")
        self._set(loc, scale, t_(df))


class Categorical:
    _sym_plain = True

    def __init__(self, logits=None, probs=None, **k):
        if logits is not None or probs is None or k:
            raise Unsupported("Categorical(logits)")
        self.probs = asarr(probs)
        if self.probs.ndim != 1:
            raise Unsupported("batch of categoricals")

    def __sym_term__(self):
        return app("dist:categorical", self.probs.term())


class Mixture(Dist):
    def __init__(self, cat, components, **k):
        USED.add("tfd.Mixture")
        if k or not isinstance(cat, Categorical):
            raise Unsupported("Mixture options")
        it = seq.to_iter(components)
        self.n = None
        if it[0] == "sym":
            self._many(cat, it[1], it[2])
            return
        if it[0] != "concrete":
            raise Unsupported("mixture of a filtered sequence of components")
        cs = list(it[1])
        if not cs:
            raise ValueError("components must be a non-empty list or tuple")
        if not ENG.branch(eq(cat.probs.dims[0], num(len(cs)))):
            raise ValueError("cat.num_classes != len(components)")
        d = cs[0].d
        for c in cs[1:]:
            if not ENG.branch(eq(c.d, d)):
                raise ValueError("components with different event shapes")
        self.cat, self.cs, self.d = cat, cs, d

    def _many(self, cat, n, f):
        if not ENG.branch(lt(ZERO, n)):
            raise ValueError("components must be a non-empty list or tuple")
        if not ENG.branch(eq(cat.probs.dims[0], n)):
            raise ValueError("cat.num_classes != len(components)")
        self.d = f(ZERO).d
        k = fresh("k")
        if not ENG.branch(tm.forall(k, ZERO, n, eq(f(k).d, self.d))):
            raise ValueError("components with different event shapes")
        self.cat, self.n, self.f = cat, n, f

    def __sym_term__(self):
        if self.n is not None:
            k = fresh("k")
            return app("dist:mixture", self.cat.__sym_term__(), tm.arr(self.n, k, seq.vterm(self.f(k))))
        return app("dist:mixture", self.cat.__sym_term__(), *[seq.vterm(c) for c in self.cs])

    def logp(self, f):
        if self.n is not None:
            k = fresh("k")
            return app("log", sum_(k, ZERO, self.n, tm.mul(self.cat.probs.get((k,)), app("exp", self.f(k).logp(f)))))
        return app("log", add(*[tm.mul(self.cat.probs.get((num(i),)), app("exp", c.logp(f))) for i, c in enumerate(self.cs)]))


class TransformedDistribution(Dist):
    def __init__(self, distribution, bijector, **k):
        USED.add("tfd.TransformedDistribution")
        if k:
            raise Unsupported("TransformedDistribution options")
        self.base, self.bij = distribution, bijector
        self.d = distribution.d

    def __sym_term__(self):
        return app("dist:transformed", seq.vterm(self.base), seq.vterm(self.bij))

    def logp(self, f):
        g, ildj = self.bij.inv(self.d, f)
        return add(self.base.logp(g), ildj)

    def draw(self, key, n, i, j):
        return self.bij.fwd(self.d, lambda k: self.base.draw(key, n, i, k))(j)


class BlockwiseD(Dist):
    def __init__(self, distributions, **k):
        USED.add("tfd.Blockwise")
        if k:
            raise Unsupported("Blockwise options")
        it = seq.to_iter(distributions)
        if it[0] != "concrete":
            raise Unsupported("Blockwise of symbolically many")
        self.cs = list(it[1])
        self.d = add(*[c.d for c in self.cs]) if len(self.cs) > 1 else self.cs[0].d

    def __sym_term__(self):
        return app("dist:blockwise", *[seq.vterm(c) for c in self.cs])

    def logp(self, f):
        off, out = ZERO, ZERO
        for c in self.cs:
            out = add(out, c.logp(lambda k, o=off: f(add(o, k))))
            off = add(off, c.d)
        return out


# ------------------------------------------------------------------ bijectors
class Bijector:
    _sym_plain = True

    def forward(self, v):
        return self._apply(v, self.fwd)

    def inverse(self, v):
        return self._apply(v, lambda d, f: self.inv(d, f)[0])

    __call__ = forward

    def _apply(self, v, g):
        v = asarr(v)
        if v.ndim == 1:
            h = g(v.dims[0], lambda k: v.get((k,)))
            return SArr(v.dims, lambda i: h(i[0]), jax=True)
        if v.ndim != 2:
            raise Unsupported("bijector of this shape")
        return SArr(v.dims, lambda i: g(v.dims[1], lambda k: v.get((i[0], k)))(i[1]), jax=True)


class Identity(Bijector):
    def __init__(self, **k):
        pass

    def __sym_term__(self):
        return app("bij:identity")

    def fwd(self, d, f):
        return f

    def inv(self, d, f):
        return f, ZERO


class OpaqueBij(Bijector):
    """an arbitrary diffeomorphism of vectors; its inverse undoes it"""

    def __init__(self, name):
        self.name = name

    def __sym_term__(self):
        return app("bij:" + self.name)

    def fwd(self, d, f):
        a = vec(d, f)
        return lambda k: app("bfwd:" + self.name, a, k)

    def inv(self, d, f):
        a = vec(d, f)
        ildj = app("ildj:" + self.name, a)
        q = fresh("q")
        b = tm.beta(a.a[1], q)
        if b.op == "app" and b.a[0] == "bfwd:" + self.name and b.a[2] is q and q not in b.a[1].fv:
            w = b.a[1]
            return (lambda k: tm.beta(w.a[1], k)), ildj
        return (lambda k: app("binv:" + self.name, a, k)), ildj


class BlockwiseB(Bijector):
    def __init__(self, bijectors, block_sizes=None, **k):
        USED.add("tfb.Blockwise")
        if k or block_sizes is None:
            raise Unsupported("Blockwise options")
        b, s = seq.to_iter(bijectors), seq.to_iter(block_sizes)
        if b[0] != "concrete" or s[0] != "concrete":
            raise Unsupported("Blockwise of symbolically many")
        self.bs, self.sizes = list(b[1]), [t_(x) for x in s[1]]
        if len(self.bs) != len(self.sizes):
            raise ValueError("bijectors and block_sizes do not match")

    def __sym_term__(self):
        return app("bij:blockwise", *[seq.vterm(b) for b in self.bs], *self.sizes)

    def _check(self, d):
        if not ENG.branch(eq(add(*self.sizes), d)):
            raise Unsupported("block sizes do not sum to the event size")

    def _parts(self):
        off = ZERO
        for b, s in zip(self.bs, self.sizes):
            yield b, off, s
            off = add(off, s)

    def _pick(self, parts):
        def at(k):
            r = None
            for g, off, s in reversed(parts):
                v = g(sub(k, off))
                r = v if r is None else tm.ite(lt(k, add(off, s)), v, r)
            return r
        return at

    def fwd(self, d, f):
        self._check(d)
        return self._pick([(b.fwd(s, lambda k, o=o: f(add(o, k))), o, s) for b, o, s in self._parts()])

    def inv(self, d, f):
        self._check(d)
        out, l = [], ZERO
        for b, o, s in self._parts():
            g, ld = b.inv(s, lambda k, o=o: f(add(o, k)))
            out.append((g, o, s))
            l = add(l, ld)
        return self._pick(out), l


tfd = loader.UnsupModule("tensorflow_probability.substrates.jax.distributions")
tfd.Distribution = Dist
tfd.Mixture, tfd.Categorical, tfd.TransformedDistribution, tfd.Blockwise = Mixture, Categorical, TransformedDistribution, BlockwiseD
tfd.MultivariateNormalLinearOperator, tfd.MultivariateStudentTLinearOperator = MVN, MVT
tfb = loader.UnsupModule("tensorflow_probability.substrates.jax.bijectors")
tfb.Bijector, tfb.Identity, tfb.Blockwise = Bijector, Identity, BlockwiseB
linalg = loader.UnsupModule("tensorflow_probability.substrates.jax.tf2jax.linalg")
linalg.LinearOperatorLowerTriangular = LowerTriangular
tf2jax = loader.UnsupModule("tensorflow_probability.substrates.jax.tf2jax")
tf2jax.linalg = linalg
tj = loader.UnsupModule("tensorflow_probability.substrates.jax")
tj.distributions, tj.bijectors, tj.tf2jax = tfd, tfb, tf2jax
subs = loader.UnsupModule("tensorflow_probability.substrates")
subs.jax = tj
top = loader.UnsupModule("tensorflow_probability")
top.substrates = subs
loader.SHIMS["tensorflow_probability"] = top
loader.SHIMS["tensorflow_probability.substrates"] = subs
loader.SHIMS["tensorflow_probability.substrates.jax"] = tj
loader.SHIMS["tensorflow_probability.substrates.jax.distributions"] = tfd
loader.SHIMS["tensorflow_probability.substrates.jax.bijectors"] = tfb
