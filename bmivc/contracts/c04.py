"""C04: transformation preserves, and independent concatenation adds, mutual information."""
from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..shims import jax_

T_ = "bmi.samplers._transformed"
I_ = "bmi.samplers._independent_coordinates"


def refused(why):
    e = TypeError(why)
    e._contract = True
    return e


def opaque_map(name, d_out, matrix):
    """an arbitrary function of a point (or, already vectorised, of a matrix of points)"""
    def f(x):
        x = asarr(x)
        if x.ndim != (2 if matrix else 1):
            raise refused("the transformation is given data of another rank")
        t = x.term()
        if matrix:
            return SArr((x.dims[0], t_(d_out)), lambda i: app(name, t, *i), jax=True)
        return SArr((t_(d_out),), lambda i: app(name, t, *i), jax=True)
    return f


def rng_args():
    return [integer("seed"), jax_.PRNGKey(integer("seed"))]


@contract("C04", f"{T_}:TransformedSampler", "any base sampler, any transformations (or none, vectorised or not), any increments",
          "rejected iff an increment is negative; information of the base; dimensions increased by the increments; one base sample of the "
          "same size and seed, f applied to every X and g to every Y")
def transformed(v):
    S = loader.load(T_).TransformedSampler
    N = posint("N")
    for vec in (None, True, False):
        for fx, fy in ((True, True), (True, False), (False, True), (False, False)):
            for rng in rng_args():
                b = FakeSampler()
                ax, ay = (nat("ax") if fx else 0), (nat("ay") if fy else 0)
                dx, dy = b.dx + ax, b.dy + ay
                kw = {} if vec is None else dict(vectorise=vec)
                if fx:
                    kw.update(transform_x=opaque_map("f", dx, vec is False), add_dim_x=ax)
                if fy:
                    kw.update(transform_y=opaque_map("g", dy, vec is False), add_dim_y=ay)

                def run():
                    b.calls = []
                    s = S(b, **kw)
                    return s, s.mutual_information(), s.dim_x, s.dim_y, s.sample(N, rng), list(b.calls)
                for p in v.explore(run):
                    if not v.returns("accepted", p):
                        continue
                    s, mi, a, c, xy, calls = p.result
                    v.prove_eq("information of the base", mi, b.mi, p)
                    v.prove_eq("dimensions", (a, c), (dx, dy), p)
                    v.check("exactly one base sample", len(calls) == 1, str(len(calls)), p)
                    for w, r, d, on, f in (("x", xy[0], dx, fx, "f"), ("y", xy[1], dy, fy, "g")):
                        raw = SArr((N.t, (b.dx if w == "x" else b.dy).t), lambda i: b.entry(w, rng, N, *i))
                        want = mapped(f, raw, vec is False) if on else lambda i, j: raw.get((i, j))
                        prove_array(v, f"transformed {w}", p, r, (N, d), want)
                    # any other points
                    m = posint("m")
                    x, y = array("x", m, b.dx, jax=True), array("y", m, b.dy, jax=True)
                    for q in v.explore(lambda: s.transform(x, y), p.ctx.facts):
                        if v.returns("transform", q):
                            for w, r, d, on, f, raw in (("x", q.result[0], dx, fx, "f", x), ("y", q.result[1], dy, fy, "g", y)):
                                prove_array(v, f"transform({w})", q, r, (m, d), mapped(f, raw, vec is False) if on else lambda i, j: raw.get((i, j)))
                            unchanged(v, "x unchanged", x, "x", q)
                            unchanged(v, "y unchanged", y, "y", q)
    # the same function on both sides
    for vec in (None, True, False):
        kw = {} if vec is None else dict(vectorise=vec)
        b = FakeSampler()
        f = same_function(vec is False)

        def run():
            b.calls = []
            s = S(b, transform_x=f, transform_y=f, **kw)
            return s.mutual_information(), s.dim_x, s.dim_y, s.sample(N, integer("seed"))
        for p in v.explore(run):
            if v.returns("the same function on both sides", p):
                mi, a, c, xy = p.result
                v.prove_eq("same function: information of the base", mi, b.mi, p)
                v.prove_eq("same function: dimensions", (a, c), (b.dx, b.dy), p)
                for w, r, d in (("x", xy[0], b.dx), ("y", xy[1], b.dy)):
                    raw = SArr((N.t, d.t), lambda i: b.entry(w, integer("seed"), N, *i))
                    prove_array(v, f"same function: transformed {w}", p, r, (N, d), mapped("f", raw, vec is False))


def same_function(matrix):
    def f(x):
        x = asarr(x)
        t = x.term()
        if x.ndim != (2 if matrix else 1):
            raise refused("the transformation is given data of another rank")
        return SArr(x.dims, lambda i: app("f", t, *i), jax=True)
    return f


def mapped(f, raw, matrix):
    if matrix:
        return lambda i, j: app(f, raw.term(), i, j)
    return lambda i, j: app(f, SArr((raw.dims[1],), lambda q: raw.get((i, q[0]))).term(), j)


@contract("C04", f"{T_}:TransformedSampler.__init__", "any increments", "rejected iff an increment is negative")
def increments(v):
    S = loader.load(T_).TransformedSampler
    ax, ay = integer("ax"), integer("ay")
    ident = lambda x: x
    for kw, ok in ((dict(add_dim_x=ax, add_dim_y=ay), and_(le(ZERO, ax.t), le(ZERO, ay.t))), (dict(add_dim_x=ax), le(ZERO, ax.t)),
                   (dict(add_dim_y=ay), le(ZERO, ay.t))):
        for vec in (True, False):
            b = FakeSampler()

            def run():
                s = S(b, transform_x=ident, transform_y=ident, vectorise=vec, **kw)
                return s.dim_x, s.dim_y
            for p in v.explore(run):
                if rejects_iff(v, ok, p):
                    v.prove_eq("dimensions", p.result, (b.dx + kw.get("add_dim_x", 0), b.dy + kw.get("add_dim_y", 0)), p)


def key_of(v, label, t, name, p):
    """the key of the one component draw an entry consists of"""
    ok = t.op == "app" and t.a[0] == name
    v.check(f"{label}: an entry of one component's draw", ok, tm.show(t)[:300], p)
    return t.a[2] if ok else None


@contract("C04", f"{I_}:IndependentConcatenationSampler", "any non-empty sequence of samplers (any length, any dimensions), any size, seed or key",
          "sums of dimensions and of informations; X (Y) samples are the components' X (Y) samples in order, X and Y of a component "
          "from one draw, different components from independent keys derived from the seed")
def concatenation(v):
    S = loader.load(I_).IndependentConcatenationSampler
    c, k, N = posint("c"), fresh("k"), posint("N")
    C0 = Component(wrap(ZERO))
    facts = [forall(k, ZERO, c.t, and_(le(ONE, C0.d("x", k)), le(ONE, C0.d("y", k))))]
    for rng in rng_args():
        root = jax_.PRNGKey(integer("seed")).t
        lst = seq.VList.from_segs([("seg", c.t, lambda i: Component(wrap(i)))])

        def run():
            s = S(lst)
            return s.mutual_information(), s.dim_x, s.dim_y, s.sample(N, rng)
        for p in v.explore(run, facts):
            if not v.returns("accepted", p):
                continue
            mi, dx, dy, xy = p.result
            v.prove_eq("information", mi, sum_(k, ZERO, c.t, app("b_mi", k)), p)
            for w, d, r in (("x", dx, xy[0]), ("y", dy, xy[1])):
                tot = sum_(k, ZERO, c.t, C0.d(w, k))
                v.prove_eq(f"dimension of {w}", d, tot, p)
                r = asarr(r)
                v.prove_eq(f"shape of {w}", r.dims, (N.t, tot), p)
                i, j = fresh("i"), fresh("j")
                ctx = p.ctx.plus(le(ZERO, i), lt(i, N.t), le(ZERO, j), lt(j, tot))
                t = r.get((i, j))
                widths = tm.arr(c.t, k, C0.d(w, k))
                blk, off = app("blockof", widths, j, sort="I"), app("blockoff", widths, j, sort="I")
                key = key_of(v, w, t, "b_" + w, p)
                if key is None:
                    continue
                v.prove_eq(f"entries of {w}", t, C0.entry(w, blk, key, N, i, off), ctx)
                kx = tm.replace(key, lambda q: k if q is blk else None)
                v.check(f"{w}: the key is derived from the seed", key_path(key)[0] is root and key_path(key)[1], tm.show(key), p)
                v.check(f"{w}: one key per component", j not in kx.fv and i not in kx.fv, tm.show(kx), p)
                if w == "x":
                    keyx = kx
                else:
                    v.prove_eq("X and Y of a component from one draw", kx, keyx, ctx)
                k2 = fresh("k")
                independent_keys(v, f"{w}: independent components", kx, tm.subst(kx, {k: k2}),
                                 p.ctx.plus(le(ZERO, k), lt(k, k2), lt(k2, c.t)))


@contract("C04", f"{I_}:IndependentConcatenationSampler", "sequences of 0 to 3 samplers of any dimensions, as list or tuple",
          "the same with the entries spelled out; the empty sequence is rejected")
def concatenation_short(v):
    S = loader.load(I_).IndependentConcatenationSampler
    N = posint("N")
    for n in range(4):
        for cast in (list, tuple):
            bs = [FakeSampler(f"b{i}") for i in range(n)]
            rng = rng_args()[n % 2]
            root = jax_.PRNGKey(integer("seed")).t

            def run():
                for b in bs:
                    b.calls = []
                s = S(samplers=cast(bs))
                return s.mutual_information(), s.dim_x, s.dim_y, s.sample(N, rng), [list(b.calls) for b in bs]
            for p in v.explore(run):
                if n == 0:
                    v.raises("an empty sequence is rejected", p, ValueError)
                    continue
                if not v.returns("accepted", p):
                    continue
                mi, dx, dy, xy, calls = p.result
                v.prove_eq("information", mi, add(*[b.mi.t for b in bs]), p)
                v.check("one draw per component", [len(q) for q in calls] == [1] * n, str(calls), p)
                if [len(q) for q in calls] != [1] * n:
                    continue
                keys = [q[0][1] for q in calls]
                for w, d, r in (("x", dx, xy[0]), ("y", dy, xy[1])):
                    ds = [(b.dx if w == "x" else b.dy).t for b in bs]
                    v.prove_eq(f"dimension of {w}", d, add(*ds), p)

                    def want(i, j):
                        res, off = None, ZERO
                        parts = []
                        for b, q, key in zip(bs, ds, keys):
                            parts.append((off, q, b, key))
                            off = add(off, q)
                        for o, q, b, key in reversed(parts):
                            e = b.entry(w, key, N, i, sub(j, o))
                            res = e if res is None else ite(lt(j, add(o, q)), e, res)
                        return res
                    prove_array(v, w, p, r, (N, add(*ds)), want)
                ks = [seq.vterm(q) for q in keys]
                for a in range(n):
                    v.check("keys are derived from the seed", key_path(ks[a])[0] is root, tm.show(ks[a]), p)
                    for b in range(a):
                        independent_keys(v, "independent components", ks[a], ks[b], p.ctx)


@contract("C04", f"{I_}:IndependentConcatenationSampler.sample", "sequences of 2 or 3 samplers in which one object is listed twice",
          "every entry is a draw of its own, from an independent key")
def concatenation_repeated(v):
    S = loader.load(I_).IndependentConcatenationSampler
    N = posint("N")
    for which in ((0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1)):
        bs = [FakeSampler("b0"), FakeSampler("b1")]

        def run():
            for b in bs:
                b.calls = []
            s = S([bs[i] for i in which])
            return s.mutual_information(), s.sample(N, integer("seed")), [list(b.calls) for b in bs]
        for p in v.explore(run):
            if not v.returns("accepted", p):
                continue
            mi, xy, calls = p.result
            v.prove_eq("information", mi, add(*[bs[i].mi.t for i in which]), p)
            want = [which.count(i) for i in (0, 1)]
            if not v.check("one draw per entry", [len(q) for q in calls] == want, str([len(q) for q in calls]), p):
                continue
            keys = [seq.vterm(q[1]) for c in calls for q in c]
            for a in range(len(keys)):
                for b in range(a):
                    independent_keys(v, "independent entries", keys[a], keys[b], p.ctx)
