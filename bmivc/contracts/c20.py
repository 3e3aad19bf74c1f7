"""C20: paired data container, chunking, noise."""
from ..vc import *  # noqa: F401,F403
from ..vc import contract
from .. import loader, seq, sym, terms as tm
from .lib import *  # noqa: F401,F403

M = "bmi.utils"


def space_args():
    n, m = posint("n"), posint("m")
    dx, dy = posint("dx"), posint("dy")
    return n, m, dx, dy, array("x", n, dx), array("y", m, dy)


def mean_of(name, n, c):
    k = fresh("k")
    return div(sum_(k, ZERO, n, app(name, k, c)), n)


def var_of(name, n, c):
    k = fresh("k")
    return div(sum_(k, ZERO, n, powr(sub(app(name, k, c), mean_of(name, n, c)), 2)), n)


def std_col(name, n, i, c):
    """standardised entry; scikit-learn leaves columns of zero variance unscaled"""
    va = var_of(name, n, c)
    sc = ite(eq(va, ZERO), ONE, app("sqrt", va))
    return div(sub(app(name, i, c), mean_of(name, n, c)), sc)


@contract("C20", f"{M}:ProductSpace.__init__", "x of shape (n, dx), y of shape (m, dy), standardize=False",
          "raises iff n != m; x and y hold the given values; the arguments are unchanged and not aliased")
def space_plain(v):
    P = loader.load(M).ProductSpace
    n, m, dx, dy, x, y = space_args()

    def run():
        s = P(x, y, standardize=False)
        return s, s.x, s.y, s.xy, s.dim_x, s.dim_y, s.__len__()
    for p in v.explore(run):
        unchanged(v, "caller's x unchanged", x, "x", p)
        unchanged(v, "caller's y unchanged", y, "y", p)
        if p.exc is not None:
            v.prove("rejects only unequal lengths", not_(eq(n.t, m.t)), p)
            continue
        v.prove("accepts only equal lengths", eq(n.t, m.t), p)
        s, sx, sy, xy, ddx, ddy, ln = p.result
        prove_array(v, "x", p, sx, (n, dx), lambda i, j: app("x", i, j))
        prove_array(v, "y", p, sy, (n, dy), lambda i, j: app("y", i, j))
        prove_array(v, "xy", p, xy, (n, add(dx.t, dy.t)), lambda i, j: ite(lt(j, dx.t), app("x", i, j), app("y", i, sub(j, dx.t))))
        v.prove_eq("dim_x", ddx, dx, p)
        v.prove_eq("dim_y", ddy, dy, p)
        v.prove_eq("length", ln, n, p)
        v.check("does not alias the caller's arrays", sx.store is not x.store and sy.store is not y.store, "aliased", p)


@contract("C20", f"{M}:ProductSpace.__init__", "x of shape (n, dx), y of shape (n, dy), standardisation by default",
          "every column of x and y is centred by its mean and divided by its standard deviation; the arguments are unchanged")
def space_standard(v):
    P = loader.load(M).ProductSpace
    n, m, dx, dy, x, y = space_args()
    for given in (False, True):
        def run():
            s = P(x, y, standardize=True) if given else P(x, y)
            return s.x, s.y
        for p in v.explore(run):
            unchanged(v, "caller's x unchanged", x, "x", p)
            unchanged(v, "caller's y unchanged", y, "y", p)
            if p.exc is not None:
                v.prove("rejects only unequal lengths", not_(eq(n.t, m.t)), p)
                continue
            v.prove("accepts only equal lengths", eq(n.t, m.t), p)
            prove_array(v, "x", p, p.result[0], (n, dx), lambda i, j: std_col("x", n.t, i, j))
            prove_array(v, "y", p, p.result[1], (n, dy), lambda i, j: std_col("y", n.t, i, j))


@contract("C20", "contract lemma over space_standard", "column of n values with positive variance",
          "the standardised column has mean 0 and variance 1")
def standard_lemma(v):
    n = posint("n")
    c = fresh("c")
    ctx = sv_ctx(lt(ZERO, var_of("x", n.t, c)))
    k = fresh("k")
    v.prove_eq("zero mean", sum_(k, ZERO, n.t, std_col("x", n.t, k, c)), ZERO, ctx)
    k = fresh("k")
    v.prove_eq("unit variance", sum_(k, ZERO, n.t, powr(std_col("x", n.t, k, c), 2)), n.t, ctx)


@contract("C20", f"{M}:ProductSpace.__getitem__", "k any valid integer index, a:b any slice",
          "space[k] is (x[k], y[k]); space[a:b] holds exactly the rows a..b of x and y side by side")
def space_index(v):
    P = loader.load(M).ProductSpace
    n, dx, dy = posint("n"), posint("dx"), posint("dy")
    x, y = array("x", n, dx), array("y", n, dy)
    k = integer("k")
    ok = and_(le(neg(n.t), k.t), lt(k.t, n.t))
    row = lambda i, j: ite(lt(j, dx.t), app("x", i, j), app("y", i, sub(j, dx.t)))
    for p in v.explore(lambda: P(x, y, standardize=False)[k], [ok]):
        if v.returns("integer index", p):
            kk = ite(lt(k.t, ZERO), add(k.t, n.t), k.t)
            prove_array(v, "row", p, p.result, (add(dx.t, dy.t),), lambda j: row(kk, j))
    a, b = nat("a"), nat("b")
    for p in v.explore(lambda: P(x, y, standardize=False)[a:b], [and_(le(a.t, b.t), le(b.t, n.t))]):
        if v.returns("slice", p):
            prove_array(v, "rows", p, p.result, (sub(b.t, a.t), add(dx.t, dy.t)), lambda i, j: row(add(a.t, i), j))
    for p in v.explore(lambda: P(x, y, standardize=False)[a:], [le(a.t, n.t)]):
        if v.returns("open slice", p):
            prove_array(v, "tail rows", p, p.result, (sub(n.t, a.t), add(dx.t, dy.t)), lambda i, j: row(add(a.t, i), j))


@contract("C20", f"{M}:chunker", "n_items, chunk_size any integers",
          "raises iff one is not positive; otherwise the slices are consecutive, non-empty, of at most chunk_size items, start at 0 and end at n_items")
def chunker(v):
    f = loader.load(M).chunker
    n, c = integer("n"), integer("c")
    lst = loader.BUILTINS["list"] if hasattr(loader, "BUILTINS") else seq.V_list
    for p in v.explore(lambda: lst(f(n, c))):
        ok = and_(lt(ZERO, n.t), lt(ZERO, c.t))
        if p.exc is not None:
            v.prove("rejects only non-positive sizes", not_(ok), p)
            v.check("rejects with ValueError", isinstance(p.exc, ValueError), repr(p.exc), p)
            continue
        v.prove("accepts only positive sizes", ok, p)
        m, at = seq_at(p.result)
        v.prove("at least one slice", lt(ZERO, m), p)
        k = fresh("k")
        inr = p.ctx.plus(le(ZERO, k), lt(k, m))
        s = at(k)
        v.check("slices without a step", isinstance(s, slice) and s.step in (None, 1), repr(s), p)
        a, b = t_(s.start), t_(s.stop)
        v.prove("non-empty", lt(a, b), inr)
        v.prove("at most chunk_size", le(sub(b, a), c.t), inr)
        v.prove_eq("starts at 0", subst_(a, k, ZERO), ZERO, p.ctx.plus(lt(ZERO, m)))
        v.prove_eq("consecutive", subst_(a, k, add(k, ONE)), b, inr.plus(lt(add(k, ONE), m)))
        v.prove_eq("ends at n_items", subst_(b, k, sub(m, ONE)), n.t, p.ctx.plus(lt(ZERO, m)))


@contract("C20", f"{M}:add_noise", "points any array of any shape (checked for 1 and 2 axes), any scale and seed",
          "points + scale * g where g depends only on seed and shape; points unchanged")
def noise(v):
    f = loader.load(M).add_noise
    np = loader.SHIMS["numpy"]
    sd, key = real("sd"), integer("key")
    n, d = posint("n"), posint("d")
    for x in (array("x", n, d), array("x", n)):
        nm = "x"
        for p in v.explore(lambda: (f(x, sd, key), f(x, noise_std=sd, rng_key=key), np.random.default_rng(key).normal(size=x.shape))):
            if not v.returns("accepts", p):
                continue
            r, r2, g = p.result
            prove_array(v, "noise", p, r, x.dims, lambda *i: add(app(nm, *i), mul(sd.t, g.get(i))))
            prove_array(v, "same seed, same noise", p, r2, x.dims, lambda *i: r.get(i))
            unchanged(v, "points unchanged", x, "x", p)
    x = array("x", n, d)
    for p in v.explore(lambda: (f(x), f(x, 1e-5 if False else seq.K("1e-5"), 0))):
        if v.returns("accepts", p):
            prove_array(v, "documented defaults", p, p.result[0], x.dims, lambda *i: p.result[1].get(i))
