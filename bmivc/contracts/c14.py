"""C14: neural objectives equal their variational formulas for every critic and batch."""
from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..shims import jax_

N = "bmi.estimators.neural."


class Critic:
    """an arbitrary critic with parameters theta; pure"""

    def __init__(self, theta="theta"):
        self.t = var(theta, "O") if isinstance(theta, str) else theta

    def __call__(self, x, y):
        x, y = asarr(x), asarr(y)
        if x.ndim != 1 or y.ndim != 1:
            raise ValueError("critic: one point expected")
        return wrap(app("f", self.t, x.term(), y.term()), py=False)

    def __sym_term__(self):
        return self.t

    def __sym_subst__(self, m):
        return self


def batch():
    n, dx, dy = posint("n"), posint("dx"), posint("dy")
    xs, ys = array("x", n, dx, jax=True), array("y", n, dy, jax=True)
    S = lambda i, j, ynm="y": t_(Critic()(SArr((dx.t,), lambda k: app("x", i, *k)), SArr((dy.t,), lambda k: app(ynm, j, *k))))
    return n, dx, dy, xs, ys, S


def mean_i(n, f):
    k = fresh("k")
    return div(sum_(k, ZERO, n, f(k)), n)


def lse_row(n, S, i):
    j = fresh("j")
    return app("log", sum_(j, ZERO, n, app("exp", S(i, j))))


def offdiag(n, g):
    i, j = fresh("i"), fresh("j")
    return sum_(i, ZERO, n, sum_(j, ZERO, n, ite(eq(i, j), ZERO, g(i, j))))


def w_infonce(n, S):
    return mean_i(n, lambda i: sub(S(i, i), sub(lse_row(n, S, i), app("log", n))))


def w_dv(n, S):
    return sub(mean_i(n, lambda i: S(i, i)), sub(app("log", offdiag(n, lambda i, j: app("exp", S(i, j)))), app("log", mul(n, sub(n, ONE)))))


def w_nwj(n, S):
    return sub(mean_i(n, lambda i: S(i, i)), div(offdiag(n, lambda i, j: app("exp", sub(S(i, j), ONE))), mul(n, sub(n, ONE))))


def _loss(v, mod, name, want, least):
    f = getattr(loader.load(N + mod), name)
    n, dx, dy, xs, ys, S = batch()
    for p in v.explore(lambda: f(Critic(), xs, ys), [le(num(least), n.t)]):
        if v.returns("accepts every batch", p):
            v.prove_eq("formula", p.result, want(n.t, S), p)
    # inside jit, as the training loop calls it
    jax = loader.SHIMS["jax"]
    for p in v.explore(lambda: jax.jit(lambda c, a, b: f(c, a, b))(Critic(), xs, ys), [le(num(least), n.t)]):
        if v.returns("accepts every batch (jit)", p):
            v.prove_eq("formula (jit)", p.result, want(n.t, S), p)


def _mk(mod, name, want, least, text):
    @contract("C14", f"{N}{mod}:{name}", f"any critic, any batch of n >= {least} pairs", text)
    def c(v):
        _loss(v, mod, name, want, least)
    c.__name__ = f"{mod.split('_')[2]}_{name}"
    return c


def _register():
    from .. import vc
    for mod in ("_backend_linear_memory", "_backend_quadratic_memory"):
        for name, want, least, text in (
                ("infonce", w_infonce, 1, "mean_i [ f(x_i,y_i) - log( (1/n) sum_j exp f(x_i,y_j) ) ]"),
                ("donsker_varadhan", w_dv, 2, "mean_i f(x_i,y_i) - log mean_{i != j} exp f(x_i,y_j)"),
                ("nwj", w_nwj, 2, "mean_i f(x_i,y_i) - mean_{i != j} exp( f(x_i,y_j) - 1 )")):
            _mk(mod, name, want, least, text)
            vc.CONTRACTS[-1]["name"] = f"{mod.split('_')[2]}_{name}"


_register()


@contract("C14", "contract lemma over infonce", "any scores", "InfoNCE is at most log n")
def infonce_bound(v):
    n, dx, dy, xs, ys, S = batch()
    i, j = fresh("i"), fresh("j")
    c = sv_ctx(le(ZERO, i), lt(i, n.t))
    E = lambda a, b: app("exp", S(a, b))
    total = sum_(j, ZERO, n.t, E(i, j))
    lo, hi = sum_(j, ZERO, i, E(i, j)), sum_(j, add(i, ONE), n.t, E(i, j))
    v.prove_eq("row sum = diagonal term + rest", total, add(E(i, i), lo, hi), c)
    v.prove("the rest is non-negative (below)", le(ZERO, lo), c)
    v.prove("the rest is non-negative (above)", le(ZERO, hi), c)
    # S_ii - log(total) <= 0 by monotonicity of log, and the mean of non-positive terms is non-positive
    L, D, R = real("L").t, real("D").t, real("R").t
    v.prove("diagonal term at most the row sum", le(D, L), sv_ctx(eq(L, add(D, R)), le(ZERO, R)))
    k = fresh("k")
    t = app("t", k)
    mean = div(sum_(k, ZERO, n.t, neg(powr(t, 2))), n.t)
    v.prove("a mean of non-positive terms is non-positive", le(mean, ZERO), sv_ctx())


def _mine_inputs():
    n, dx, dy = posint("n"), posint("dx"), posint("dy")
    xs, yp, yu = array("x", n, dx, jax=True), array("yp", n, dy, jax=True), array("yu", n, dy, jax=True)
    T = lambda nm, k: t_(Critic()(SArr((dx.t,), lambda q: app("x", k, *q)), SArr((dy.t,), lambda q: app(nm, k, *q))))
    return n, xs, yp, yu, T


def w_lme(n, T):
    k = fresh("k")
    return sub(app("log", sum_(k, ZERO, n, app("exp", T("yu", k)))), app("log", n))


@contract("C14", N + "_mine_estimator:_mine_value", "any critic, any batches of n pairs and n unpaired Y",
          "mean f(x_i, y_i) over the paired batch minus log mean exp f(x_i, y'_i) over the unpaired batch")
def mine_value(v):
    f = loader.load(N + "_mine_estimator")._mine_value
    n, xs, yp, yu, T = _mine_inputs()
    for p in v.explore(lambda: f(Critic(), xs=xs, ys_paired=yp, ys_unpaired=yu)):
        if v.returns("accepts", p):
            v.prove_eq("formula", p.result, sub(mean_i(n.t, lambda k: T("yp", k)), w_lme(n.t, T)), p)


@contract("C14", N + "_mine_estimator:_mine_value_neg_grad_log_denom", "any critic, batches, previous log-denominator and 0 < alpha < 1",
          "value as above; log_denom = log(alpha * mean exp f + (1 - alpha) * previous denominator) (0 at the first step); "
          "negative gradient = (mean exp f / denominator) * grad(log mean exp f) - grad(mean f)")
def mine_gradient(v):
    f = loader.load(N + "_mine_estimator")._mine_value_neg_grad_log_denom
    jnp = loader.SHIMS["jax.numpy"]
    n, xs, yp, yu, T = _mine_inputs()
    al, prev = real("alpha"), real("prev")
    mean_t, lme = mean_i(n.t, lambda k: T("yp", k)), w_lme(n.t, T)
    cur = div((lambda k: sum_(k, ZERO, n.t, app("exp", T("yu", k))))(fresh("k")), n.t)
    for first in (False, True):
        pv = -jnp.inf if first else prev
        lab = " (first step)" if first else ""
        for p in v.explore(lambda: f(Critic(), xs=xs, ys_paired=yp, ys_unpaired=yu, log_denom_prev=pv, alpha=al), [lt(ZERO, al.t), lt(al.t, ONE)]):
            if not v.returns("accepts" + lab, p):
                continue
            val, g, ld = p.result
            v.prove_eq("value" + lab, val, sub(mean_t, lme), p)
            den = mul(al.t, cur) if first else add(mul(al.t, cur), mul(sub(ONE, al.t), app("exp", prev.t)))
            v.prove_eq("smoothed denominator" + lab, app("exp", t_(ld)), den, p)
            th = Critic().t
            want = sub(mul(div(cur, den), jax_.grad_term(lme, th)), jax_.grad_term(mean_t, th))
            v.prove_eq("negative gradient" + lab, seq.vterm(g), want, p)


@contract("C14", N + "_critics:MLP", "any dimensions and layer sizes, 0 to 3 hidden layers",
          "the score is W_L relu(... relu(W_1 (x, y) + b_1)) + b_L with X first; every layer is initialised with its own key")
def mlp(v):
    C = loader.load(N + "_critics").MLP
    jr = loader.SHIMS["jax.random"]
    dx, dy, seed = posint("dx"), posint("dy"), integer("seed")
    x, y = array("x", dx, jax=True), array("y", dy, jax=True)
    for depth in range(4):
        hid = [posint(f"h{i}") for i in range(depth)]

        def run():
            m = C(jr.PRNGKey(seed), dim_x=dx, dim_y=dy, hidden_layers=tuple(hid))
            ls = list(m.layers)
            return m(x, y), ls, [l.key_t for l in ls]
        for p in v.explore(run):
            if not v.returns(f"accepts, {depth} hidden layers", p):
                continue
            r, ls, keys = p.result
            v.check(f"number of layers, {depth}", len(ls) == depth + 1, str(len(ls)), p)
            dims = [add(dx.t, dy.t)] + [h.t for h in hid] + [ONE]
            z = lambda k: ite(lt(k, dx.t), app("x", k), app("y", sub(k, dx.t)))
            for q, key in enumerate(keys):
                lin = loader.SHIMS["equinox.nn"].Linear
                di, do = dims[q], dims[q + 1]

                def nz(i, z=z, key=key, di=di, do=do, last=(q == depth)):
                    k = fresh("k")
                    s = add(sum_(k, ZERO, di, mul(app("linear_w", key, di, do, i, k), z(k))), app("linear_b", key, di, do, i))
                    return s if last else app("max", s, ZERO)
                z = nz
            v.check(f"scalar score, {depth}", not isinstance(r, SArr) or r.ndim == 0, "not a scalar", p)
            v.prove_eq(f"score, {depth} hidden layers", t_(r), z(ZERO), p)
            for a in range(len(keys)):
                for b in range(a):
                    independent_keys(v, f"distinct keys of layers {b} and {a}, {depth}", keys[a], keys[b], p.ctx)


class ForwardLoop:
    """invariant of a loop over the layers: the carried vector is the output of the layers before the k-th,
    z_0 = (x, y), z_{j+1} = relu(W_j z_j + b_j)"""

    def __init__(self, v, dx, dy, h):
        self.v, self.dx, self.dy, self.h = v, dx, dy, h
        self.on, self.layers, self.late = False, None, False

    def applies(self, loop):
        return self.on

    def layer(self, j):
        """the layer at a symbolic position among the hidden ones"""
        s = seq.segs_of(self.layers)[0]
        if s[0] != "seg":
            raise sym.Unsupported("layers are built in another way")
        return s[2](j)

    def __call__(self, loop, loc):
        self.loop = loop
        return self

    def width(self, j):
        return ite(le(j, ZERO), add(self.dx.t, self.dy.t), app("h", sub(j, ONE), sort="I"))

    def init(self, loc):
        xs = [x for x in self.loop.names if isinstance(loc.get(x), SArr)]
        if len(xs) != 1 or loc[xs[0]].ndim != 1:
            raise sym.Unsupported("the loop over the layers does not carry one vector")
        if not solve.prove_eq(self.loop.n, var("L", "I"), ENG.ctx):
            raise sym.Unsupported("the loop does not run once for every hidden layer")
        self.x = xs[0]
        z = loc[self.x]
        k = fresh("k")
        if not solve.prove_eq(z.dims[0], self.width(ZERO), ENG.ctx) or not solve.prove_eq(
                z.get((k,)), ite(lt(k, self.dx.t), app("x", k), app("y", sub(k, self.dx.t))), ENG.ctx.plus(le(ZERO, k), lt(k, z.dims[0]))):
            raise sym.Unsupported("the loop over the layers does not start with (x, y)")
        self.v.ok("input of the first layer is (x, y)")

    def havoc(self, k, loc):
        out = {}
        for x in self.loop.names:
            w = loc.get(x, seq.UNB)
            if x == self.x:
                out[x] = SArr((self.width(k),), lambda i: app("z", k, *i), jax=True)
            elif w is seq.UNB:
                out[x] = w
            else:
                raise sym.Unsupported(f"the loop over the layers carries {x}")
        return out

    def preserve(self, k1, loc):
        z, ctx, j = loc[self.x], ENG.ctx, self.loop.k
        self.v.prove_eq("size of the output of a hidden layer", z.dims[0], self.width(k1), ctx)
        i = fresh("i")
        lin = self.layer(j)
        self.v.prove_eq("output of a hidden layer is relu(W z + b)", z.get((i,)), self.act(self.affine(lin, j, i), ONE),
                        ctx.plus(le(ZERO, i), lt(i, z.dims[0])))

    def affine(self, lin, j, i):
        k, key = fresh("k"), lin.key_t
        di, do = self.width(j), ite(lt(j, var("L", "I")), self.width(add(j, ONE)), ONE)
        return add(sum_(k, ZERO, di, mul(app("linear_w", key, di, do, i, k), self.act(app("z", j, k), j, True))), app("linear_b", key, di, do, i))

    def act(self, t, j, input=False):
        """relu where it belongs: on what a hidden layer returns (late: on what the next layer takes)"""
        if self.late != input:
            return t
        return app("max", t, ZERO) if not input else ite(le(j, ZERO), t, app("max", t, ZERO))


@contract("C14", N + "_critics:MLP", "any dimensions, any number of hidden layers of any sizes",
          "layer j maps width j to width j + 1 and the last one to a single number; loop invariant of the evaluation: the vector before layer j is "
          "z_j with z_0 = (x, y) and z_{j+1} = relu(W_j z_j + b_j); the score is W_L z_L + b_L; layers have keys of their own")
def mlp_any_depth(v):
    C = loader.load(N + "_critics").MLP
    jr = loader.SHIMS["jax.random"]
    dx, dy, seed, L = posint("dx"), posint("dy"), integer("seed"), posint("L")
    x, y = array("x", dx, jax=True), array("y", dy, jax=True)
    hid = lambda: seq.VList.from_segs([("seg", L.t, lambda j: SV(app("h", j, sort="I")))])
    inv = ForwardLoop(v, dx, dy, hid)
    for p in v.explore(lambda: C(jr.PRNGKey(seed), dim_x=dx, dim_y=dy, hidden_layers=hid()).layers):
        if not v.returns("any depth is accepted", p):
            continue
        j, i, off = fresh("j"), fresh("i"), ZERO
        for s in seq.segs_of(p.result):
            l = s[1] if s[0] == "item" else s[2](j)
            q = off if s[0] == "item" else add(off, j)
            off = add(off, seq.seg_len(s))
            pj = p.ctx.plus(le(ZERO, j), lt(j, seq.seg_len(s)))
            v.prove_eq("input size of layer j", t_(l.in_features), inv.width(q), pj)
            v.prove_eq("output size of layer j", t_(l.out_features), ite(lt(q, L.t), inv.width(add(q, ONE)), ONE), pj)
        v.prove_eq("number of layers", off, add(L.t, ONE), p)
        keys = []
        for s in seq.segs_of(p.result):
            n1 = seq.seg_len(s)
            kj = (lambda q, s=s: s[1].key_t if s[0] == "item" else s[2](q).key_t)
            if s[0] != "item":
                independent_keys(v, "different layers have different keys", kj(i), kj(j), p.ctx.plus(le(ZERO, i), lt(i, j), lt(j, n1)))
            for k2, m2 in keys:
                independent_keys(v, "different layers have different keys", k2(i), kj(j),
                                 p.ctx.plus(le(ZERO, i), lt(i, m2), le(ZERO, j), lt(j, n1)))
            keys.append((kj, n1))
    seq.INVARIANTS["*"] = inv

    def run():
        inv.on = False
        m = C(jr.PRNGKey(seed), dim_x=dx, dim_y=dy, hidden_layers=hid())
        inv.on, inv.layers = True, m.layers
        return m(x, y), m

    def evaluate():
        for p in v.explore(run):
            if not v.returns("any depth can be evaluated", p):
                continue
            r, m = p.result
            s = seq.segs_of(m.layers)[-1]
            last = s[1] if s[0] == "item" else s[2](sub(seq.seg_len(s), ONE))
            v.check("scalar score, any depth", not isinstance(r, SArr) or r.ndim == 0, "not a scalar", p)
            v.prove_eq("score, any depth", t_(r), inv.affine(last, L.t, ZERO), p)
    try:
        # relu may be applied to what a layer returns or to what the next one takes: the same function
        at = len(v.obls)
        evaluate()
        first = v.obls[at:]
        if any(o["status"] != "proved" for o in first):
            inv.late = True
            del v.obls[at:]
            evaluate()
            if any(o["status"] != "proved" for o in v.obls[at:]):
                v.obls[at:] = first
    finally:
        del seq.INVARIANTS["*"]
