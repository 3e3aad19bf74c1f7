"""C16: neural estimators train and test on paired, split data with declared settings."""
import contextlib
import inspect
import io

from ..vc import contract
from .lib import *  # noqa: F401,F403
from . import c14, c15
from . import training as tr
from ..shims import jax_, misc

N = "bmi.estimators.neural."


# ------------------------------------------------------------------ which rows does an array consist of?
DATA = {"x", "y", "u", "w", "sx", "sy", "rx", "ry", "px", "py"}


def rows(a, name, ctx, v=None, label=""):
    """(number of rows, index) if the entries of the matrix are name(index(i), j) for all i, j; Unsupported if not recognisable"""
    a = asarr(a)
    if a.ndim != 2:
        raise Unsupported("not a matrix of points")
    i, j = fresh("i"), fresh("j")
    c = ctx.plus(le(ZERO, i), lt(i, a.dims[0]), le(ZERO, j), lt(j, a.dims[1]))
    e = solve.simp(a.get((i, j)), c)
    if v is not None and e.op == "app" and e.a[0] in DATA - {name} and len(e.a) == 3:
        v.fail(f"{label}: rows of the right data", f"{e.a[0]} instead of {name}", c)
    if not (e.op == "app" and e.a[0] == name and len(e.a) == 3):
        raise Unsupported(f"rows of {name}: {tm.show(e)[:200]}")
    if not solve.prove_eq(e.a[2], j, c):
        raise Unsupported(f"columns of {name}: {tm.show(e)[:200]}")
    ix = e.a[1]
    return a.dims[0], (lambda k: tm.subst(ix, {i: k})), a.dims[1]


def as_mat(t):
    """the matrix a term denotes"""
    if t.op != "arr" or len(t.a) < 2:
        raise Unsupported("matrix expected")

    def get(ix):
        x = t
        for k in ix:
            if x.op != "arr":
                raise Unsupported("matrix expected")
            x = tm.beta(x.a[1], k)
        return x
    q = fresh("q")
    inner = tm.beta(t.a[1], q)
    if inner.op != "arr" or q in inner.a[0].fv:
        raise Unsupported("matrix expected")
    return SArr((t.a[0], inner.a[0]), get, jax=True)


def full(v, label, a, name, n, ctx):
    """the matrix is the whole data set, in order"""
    m, ix, _ = rows(a, name, ctx, v, label)
    i = fresh("i")
    v.prove_eq(f"{label}: number of points", m, n, ctx)
    v.prove_eq(f"{label}: rows in order", ix(i), i, ctx.plus(le(ZERO, i), lt(i, n)))


def paired_rows(v, label, xs, ys, xn, yn, n, ctx, dims):
    """the rows of xs and ys are rows of the data with the same index, which is in range; returns (count, index)"""
    m, ix, dx = rows(xs, xn, ctx, v, label)
    m2, iy, dy = rows(ys, yn, ctx, v, label)
    v.prove_eq(f"{label}: as many X as Y", m, m2, ctx)
    v.prove_eq(f"{label}: all columns of X", dx, dims[0], ctx)
    v.prove_eq(f"{label}: all columns of Y", dy, dims[1], ctx)
    i = fresh("i")
    c = ctx.plus(le(ZERO, i), lt(i, m))
    v.prove_eq(f"{label}: X and Y stay paired", ix(i), iy(i), c)
    v.prove(f"{label}: rows of the data", and_(le(ZERO, ix(i)), lt(ix(i), n)), c.plus(*draw_facts(ix(i))))
    return m, ix


def the_draw(ix, ctx, m):
    """the random function behind an index: (name, key)"""
    i = fresh("i")
    ds = {(q.a[0], q.a[1]) for q in draws_of(ix(i), ("choice_", "perm", "argsort", "rand"))}
    if len(ds) != 1:
        raise Unsupported("the index is not one draw")
    return ds.pop()


def resampled(v, label, key, k, ctx):
    """different steps draw independently"""
    k2 = fresh("k")
    other = tm.subst(key, {k: k2})
    independent_keys(v, label, key, other, ctx.plus(le(ZERO, k2), not_(eq(k, k2))))


def one(st, cls, what):
    """the value of the given kind the loop carries (the names are those assigned in the loop, whatever they are)"""
    vs = [x for x in st.values() if isinstance(x, cls)]
    if len(vs) != 1:
        raise Unsupported(f"not exactly one {what} carried by the loop")
    return vs[0]


def optimizer(p_ctx, lr):
    opts = ENG.ghost.get("optimizers", [])
    if len(opts) != 1:
        raise Unsupported("not exactly one optimizer")
    return opts[0]


def update(v, st, k, grad, lr, ctx):
    """the optimizer step: with the declared learning rate, on the critic and state of this step"""
    o = optimizer(ctx, lr)
    v.prove_eq("learning rate of the optimizer", o.learning_rate, lr, ctx)
    crit, state = app("critic_after", k), app("state_after", k)
    v.prove_eq("the critic is updated with the gradient of this step", seq.vterm(one(st, tr.C, "critic")),
               app("apply_updates", crit, app("opt_update", o.t, grad, state)), ctx)
    v.prove_eq("the optimizer state is advanced", seq.vterm(one(st, misc.OptState, "optimizer state")), app("opt_next", o.t, grad, state), ctx)


def batch_of(v, d, xs, ys, k, ctx, what="minibatch"):
    """a paired minibatch of the declared size (or the full data)"""
    m, ix = paired_rows(v, what, xs, ys, "x", "y", d["n"].t, ctx, (d["dx"].t, d["dy"].t))
    if d["bs"] is None:
        full(v, what, xs, "x", d["n"].t, ctx)
        return None
    v.prove_eq(f"{what}: declared size", m, d["bs"].t, ctx)
    nm, key = the_draw(ix, ctx, m)
    i, j = fresh("i"), fresh("j")
    c = ctx.plus(le(ZERO, i), lt(i, m), le(ZERO, j), lt(j, m), not_(eq(i, j)))
    if nm not in ("choice_norep", "choice_rep", "perm"):
        raise Unsupported(f"minibatch drawn by {nm}")
    resampled(v, f"{what}: drawn anew in every step", key, k, ctx)
    return key


def the_value(v, label, t, name, ctx):
    """the application of the objective a logged value consists of"""
    if t.op == "app" and t.a[0] == name:
        return t
    qs = [q for q in tm.subterms(t) if q.op == "app" and q.a[0] == name]
    if len(qs) != 1:
        raise Unsupported(f"{label}: {tm.show(t)[:200]}")
    v.prove_eq(label, t, qs[0], ctx)
    return qs[0]


def basic_step(d, v, inv, k, log, st, broke, ctx):
    calls = {c[0]: c for c in log.calls}
    crit = app("critic_after", k)
    if "train" not in calls:
        raise Unsupported("no training value logged")
    mi = solve.simp(t_(calls["train"][2]), ctx)
    mi = the_value(v, "training value: the objective", mi, "mi", ctx)
    v.prove_eq("training value: objective of the critic before the update", mi.a[1], crit, ctx)
    batch_of(v, d, as_mat(mi.a[2]), as_mat(mi.a[3]), k, ctx)
    update(v, st, k, jax_.grad_term(neg(mi), crit), d["lr"], ctx)
    if "test" in calls:
        te = solve.simp(t_(calls["test"][2]), ctx)
        name = "mi_test" if d["test"] else "mi"
        want = app(name, seq.vterm(one(st, tr.C, "critic")), *[asarr(a).term() for a in testset(d)])
        v.prove_eq("test value: test objective of the updated critic on the test data", te, want, ctx)


def testset(d):
    if d["test"]:
        return array("u", d["m"], d["dx"], jax=True), array("w", d["m"], d["dy"], jax=True)
    return d["xs"], d["ys"]


def mine_step(d, v, inv, k, log, st, broke, ctx):
    calls = {c[0]: c for c in log.calls}
    steps = ENG.ghost.get("steps", [])
    crit = app("critic_after", k)
    if len(steps) != 1 or "train" not in calls:
        raise Unsupported("not one gradient evaluation per step")
    f, xs, yp, yu, prev, alpha = steps[0]
    v.prove_eq("gradient at the critic of this step", seq.vterm(f), crit, ctx)
    v.prove_eq("smoothing parameter", alpha, d["alpha"], ctx)
    v.prove_eq("previous denominator", t_(prev), app("denom_after", k), ctx)
    args = [seq.vterm(x) for x in (f, xs, yp, yu, prev, alpha)]
    v.prove_eq("training value", t_(calls["train"][2]), app("mine_value", *args[:4]), ctx)
    if inv.carried is None:
        raise Unsupported("no denominator carried")
    v.prove_eq("denominator carried to the next step", st[inv.carried], app("mine_denom", *args), ctx)
    key = batch_of(v, d, xs, yp, k, ctx)
    m, iu, dy = rows(yu, "y", ctx, v, "negatives")
    i = fresh("i")
    c = ctx.plus(le(ZERO, i), lt(i, m))
    v.prove_eq("negatives: as many as pairs", m, asarr(xs).dims[0], ctx)
    v.prove_eq("negatives: all columns of Y", dy, d["dy"].t, ctx)
    v.prove("negatives: rows of Y", and_(le(ZERO, iu(i)), lt(iu(i), d["n"].t)), c.plus(*draw_facts(iu(i))))
    nm, ku = the_draw(iu, ctx, m)
    resampled(v, "negatives: shuffled anew in every step", ku, k, ctx)
    if key is not None:
        independent_keys(v, "negatives: drawn independently of the pairs", ku, key, ctx)
    elif nm != "perm":
        raise Unsupported(f"negatives drawn by {nm}")
    else:
        q = iu(i)
        v.check("negatives: a permutation of Y", q.op == "app" and q.a[0] == "perm" and bool(solve.prove_eq(q.a[2], d["n"].t, c)) and q.a[3] is i, tm.show(q)[:200], c)
    update(v, st, k, app("mine_grad", *args), d["lr"], ctx)
    if "test" in calls:
        te = solve.simp(t_(calls["test"][2]), ctx)
        te = the_value(v, "test value: the MINE objective", te, "mine_test", ctx)
        ux, uy = testset(d)
        xn, yn, mt = ("u", "w", d["m"].t) if d["test"] else ("x", "y", d["n"].t)
        v.prove_eq("test value: of the updated critic", te.a[1], seq.vterm(one(st, tr.C, "critic")), ctx)
        v.prove_eq("test value: X of the test data", te.a[2], ux.term(), ctx)
        v.prove_eq("test value: paired Y of the test data", te.a[3], uy.term(), ctx)
        mm, it, dyt = rows(as_mat(te.a[4]), yn, ctx, v, "test negatives")
        v.prove_eq("test negatives: as many as pairs", mm, mt, ctx)
        v.prove_eq("test negatives: all columns of Y", dyt, d["dy"].t, ctx)
        q = solve.simp(it(i), ctx)
        if not draws_of(q, ("choice_", "perm", "argsort", "rand")):
            v.fail("test negatives: a permutation of Y", tm.show(q)[:200], ctx)
        elif not (q.op == "app" and q.a[0] == "perm"):
            raise Unsupported(f"test negatives: {tm.show(q)[:200]}")
        else:
            v.check("test negatives: a permutation of Y", bool(solve.prove_eq(q.a[2], mt, ctx)) and q.a[3] is i, tm.show(q)[:200], ctx)


def _loop(which, step):
    def c(v):
        start = tr.LoopContract.init

        def init(self, loc):
            start(self, loc)
            cs = [loc[x] for x in self.loop.names if isinstance(loc.get(x), tr.C)]
            ss = [loc[x] for x in self.loop.names if isinstance(loc.get(x), misc.OptState)]
            if len(cs) != 1 or len(ss) != 1:
                raise Unsupported("critic and optimizer state of the loop")
            v.prove_eq("training starts from the given critic", seq.vterm(cs[0]), var("theta", "O"), ENG.ctx)
            v.prove_eq("initial optimizer state", seq.vterm(ss[0]), app("opt_init", optimizer(ENG.ctx, None).t, var("theta", "O")), ENG.ctx)
        tr.LoopContract.init = init
        try:
            for d, p in c15.training(v, which, step):
                pass
        finally:
            tr.LoopContract.init = start
    c.__name__ = f"{which}_steps"
    return c


contract("C16", N + "_basic_training:basic_training", "any data, critic, objectives, batch size (or none), step counts, learning rate, seed; loop invariant: "
         "critic and optimizer state after k steps",
         "step k: a minibatch of batch_size paired rows of the training data drawn anew (or the full data), the objective's gradient applied with the "
         "declared learning rate; the test value is the test objective of the updated critic on the test data")(_loop("basic", basic_step))
contract("C16", N + "_mine_estimator:mine_training", "any data, critic, batch size (or none), step counts, learning rate, alpha, seed; loop invariant: "
         "critic, optimizer state and denominator after k steps",
         "step k: paired minibatch, negatives are rows of Y shuffled independently and anew, MINE gradient with declared alpha applied with the declared "
         "learning rate, denominator carried (0 before the first step); the test value uses the test data with permuted Y")(_loop("mine", mine_step))


# ------------------------------------------------------------------ splitting
def is_split(v, label, r, names, n, frac, ctx, dims):
    """train and test rows form one partition of the data, X and Y paired; returns the number of training points"""
    xtr, xte, ytr, yte = r
    a, ia = paired_rows(v, f"{label}: training set", xtr, ytr, *names, n, ctx, dims)
    b, ib = paired_rows(v, f"{label}: test set", xte, yte, *names, n, ctx, dims)
    if frac is None:
        full(v, f"{label}: training set", xtr, names[0], n, ctx)
        full(v, f"{label}: test set", xte, names[0], n, ctx)
        return a
    v.prove_eq(f"{label}: every point is in one of the sets", add(a, b), n, ctx)
    v.prove_eq(f"{label}: size of the training set", a, app("floor", mul(t_(frac), n)), ctx)
    i = fresh("i")
    ea, eb = solve.simp(ia(i), ctx), solve.simp(ib(i), ctx)
    inj = lambda e: e.op == "app" and e.a[0] == "perm"
    if not inj(ea) and not inj(eb):      # no shuffling: the positions themselves
        pa, pb = ea, eb
    elif inj(ea) and inj(eb):
        v.prove_eq(f"{label}: one permutation splits both", ea.a[1], eb.a[1], ctx)
        v.prove_eq(f"{label}: a permutation of all points", ea.a[2], n, ctx)
        v.prove_eq(f"{label}: a permutation of all points", eb.a[2], n, ctx)
        pa, pb = ea.a[3], eb.a[3]
    else:
        raise Unsupported("training and test set drawn differently")
    oa, ob = sub(pa, i), sub(pb, i)
    if i in oa.fv or i in ob.fv:
        raise Unsupported("positions of the split")
    # [oa, oa + a) and [ob, ob + b) partition [0, n)
    v.prove(f"{label}: no point in both sets", or_(le(add(oa, a), ob), le(add(ob, b), oa)), ctx)
    v.prove(f"{label}: positions of the data", and_(le(ZERO, oa), le(add(oa, a), n), le(ZERO, ob), le(add(ob, b), n)), ctx)
    return a


@contract("C16", N + "_estimators:train_test_split", "any data of n points, any key, no split fraction or any other (in (0, 1) and leaving both sets non-empty for the result)",
          "with a fraction every point is in exactly one of the sets, floor(fraction * n) of them in the training set, X and Y paired; otherwise both "
          "sets are the full data")
def split(v):
    f = loader.load(N + "_estimators").train_test_split
    n, dx, dy, fr = posint("n"), posint("dx"), posint("dy"), pos("frac")
    xs, ys = array("x", n, dx, jax=True), array("y", n, dy, jax=True)
    key = jax_.Key(app("somekey"))
    fl = app("floor", mul(fr.t, n.t))
    for frac in (None, fr):
        pre = [] if frac is None else [lt(fr.t, ONE), le(ONE, fl), le(fl, sub(n.t, ONE))]
        for p in v.explore(lambda: f(xs, ys, train_size=frac, key=key), pre):
            if v.returns("splits", p):
                lab = "no fraction" if frac is None else "fraction"
                is_split(v, lab, p.result, ("x", "y"), n.t, frac, p.ctx, (dx.t, dy.t))
    # any other fraction is refused, or both sets are a split all the same
    other = real("frac")
    for p in v.explore(lambda: f(xs, ys, train_size=SV(other.t, tag="float"), key=key), [or_(le(other.t, ZERO), le(ONE, other.t), lt(fl, ONE), lt(sub(n.t, ONE), fl))]):
        if p.exc is None:
            is_split(v, "fraction without two non-empty sets", p.result, ("x", "y"), n.t, other, p.ctx, (dx.t, dy.t))
        else:
            v.ok("fraction without two non-empty sets: refused")


@contract("C16", N + "_basic_training:get_batch", "any data of n points, any key, no batch size or one up to n",
          "batch_size rows of X with the rows of Y of the same points; the full data without batch size")
def batches(v):
    f = loader.load(N + "_basic_training").get_batch
    n, dx, dy, b = posint("n"), posint("dx"), posint("dy"), posint("b")
    xs, ys = array("x", n, dx, jax=True), array("y", n, dy, jax=True)
    for bs in (b, None):
        for p in v.explore(lambda: f(xs, ys, jax_.Key(app("somekey")), bs), [] if bs is None else [le(b.t, n.t)]):
            if not v.returns("draws a batch", p):
                continue
            bx, by = p.result
            m, ix = paired_rows(v, "batch", bx, by, "x", "y", n.t, p.ctx, (dx.t, dy.t))
            if bs is None:
                full(v, "batch", bx, "x", n.t, p.ctx)
            else:
                v.prove_eq("batch size", m, b.t, p)
                the_draw(ix, p.ctx, m)


@contract("C16", N + "_mine_estimator:_sample_paired_unpaired", "any data of n points, any key, no batch size or one up to n",
          "paired rows as above; the negatives are as many rows of Y, drawn with an independent key (all of Y permuted without batch size); data of "
          "unequal length is rejected")
def mine_batches(v):
    f = loader.load(N + "_mine_estimator")._sample_paired_unpaired
    n, dx, dy, b, n2 = posint("n"), posint("dx"), posint("dy"), posint("b"), posint("n2")
    xs, ys = array("x", n, dx, jax=True), array("y", n, dy, jax=True)
    for bs in (b, None):
        for p in v.explore(lambda: f(jax_.Key(app("somekey")), xs, ys, bs), [] if bs is None else [le(b.t, n.t)]):
            if not v.returns("draws a batch", p):
                continue
            bx, by, bu = p.result
            m, ix = paired_rows(v, "batch", bx, by, "x", "y", n.t, p.ctx, (dx.t, dy.t))
            mu, iu, du = rows(bu, "y", p.ctx, v, "negatives")
            i = fresh("i")
            v.prove_eq("as many negatives", mu, m, p)
            v.prove_eq("all columns of Y", du, dy.t, p)
            v.prove("negatives are rows of Y", and_(le(ZERO, iu(i)), lt(iu(i), n.t)), p.ctx.plus(le(ZERO, i), lt(i, mu), *draw_facts(iu(i))))
            nm, ku = the_draw(iu, p.ctx, mu)
            if bs is None:
                full(v, "batch", bx, "x", n.t, p.ctx)
            else:
                v.prove_eq("batch size", m, b.t, p)
                independent_keys(v, "negatives independent of the pairs", ku, the_draw(ix, p.ctx, m)[1], p.ctx)


# ------------------------------------------------------------------ estimators
def prepared(which):
    """the estimator module with the training function and ProductSpace replaced by their contracts; the calls are recorded"""
    stub_space()
    loader.load(N + "_training_log").TrainingLog = tr.Log
    bt = loader.load(N + "_basic_training")
    calls = []

    def stub(real):
        sig = inspect.signature(real)

        def training(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            calls.append(b.arguments)
            return tr.Log(1, True), tr.C(app("trained", num(len(calls))))
        return training
    if which == "mine":
        mod = loader.load(N + "_mine_estimator")
        mod.mine_training = stub(mod.mine_training)
    else:
        bt.basic_training = stub(bt.basic_training)
        mod = loader.load(N + "_estimators")
    return mod, calls


def settings(frac, std, depth):
    d = dict(batch_size=posint("batch"), max_n_steps=posint("M"), train_test_split=frac, test_every_n_steps=posint("T"),
             learning_rate=pos("lr"), standardize=std, seed=nat("seed"))
    if depth is not None:
        d["hidden_layers"] = tuple(posint(f"h{i}") for i in range(depth))
    return d


def check_run(v, p, kw, r, calls, params, n, dx, dy, label):
    """the estimate of one run: data, keys and settings of the training, and the reported parameters; returns the training call or None"""
    res, res2, est = r
    std = kw["standardize"]
    frac = kw["train_test_split"]
    names = ("sx", "sy") if std else ("rx", "ry")
    for s in p.ghost.get("spaces", []):
        for a, nm in zip(s.given, ("px", "py")):
            full(v, f"{label}: data of the estimate ({nm[1]})", a, nm, n.t, p.ctx)
    fl = app("floor", mul(t_(frac), n.t)) if frac is not None else n.t
    small = lt(fl, kw["batch_size"].t)
    if not calls:
        v.prove(f"{label}: no training only if the batch exceeds the training set", small, p)
        v.check(f"{label}: NaN", t_(res.mi_estimate) is tm.NAN, str(res.mi_estimate), p)
        v.check(f"{label}: NaN (estimate)", t_(est) is tm.NAN, str(est), p)
        v.check(f"{label}: flag", res.additional_information.get("batch_size_larger_than_train") is True, str(res.additional_information), p)
        return None
    v.prove(f"{label}: a batch larger than the training set is not trained on", not_(small), p)
    if len(calls) != 2:
        raise Unsupported("not one training per estimate")
    for a in calls:
        tt = [a["xs"], a["xs_test"], a["ys"], a["ys_test"]]
        if any(x is None for x in tt):
            raise Unsupported("training function called without test data")
        is_split(v, label, tt, names, n.t, frac, p.ctx, (dx.t, dy.t))
        for k in ("batch_size", "test_every_n_steps", "max_n_steps", "learning_rate"):
            v.prove_eq(f"{label}: {k} of the training", a[k], kw[k], p)
        v.check(f"{label}: early stopping", a["early_stopping"] is True, str(a["early_stopping"]), p)
    v.prove_eq(f"{label}: the estimate", res.mi_estimate, var("final_mi", "R"), p)
    v.prove_eq(f"{label}: the estimate without information", est, res.mi_estimate, p)
    v.check(f"{label}: additional information", dict(res.additional_information) == {"info": "of the training"}, str(res.additional_information), p)
    return calls[0]


def same_calls(v, label, calls, p):
    """estimating with and without information runs the same training"""
    if len(calls) == 2:
        a, b = calls
        for k in a:
            if k not in ("verbose", "mi_formula", "mi_formula_test", "critic"):
                v.prove_eq(f"{label}: estimate() trains in the same way ({k})", seq.vterm(a[k]), seq.vterm(b[k]), p)


def keys_of(v, label, a, crit_key, frac, seed, p):
    """seed, and independence of initialisation, split and training"""
    root = app("PRNGKey", seed.t)
    fit = jax_.keyterm(a["rng"])
    ks = {"training": fit, "initialisation": crit_key}
    if frac is not None:
        m, ix, _ = rows(a["xs"], "sx" if "sx" in str(tm.show(asarr(a["xs"]).get((fresh("i"), fresh("j"))))) else "rx", p.ctx)
        e = ix(fresh("i"))
        ds = [q for q in tm.subterms(e) if q.op == "app" and q.a[0] in ("splitkey", "PRNGKey", "foldin")]
        roots = [q for q in ds if not any(q is not r and q in tm.subterms(r) for r in ds)]
        if len(roots) != 1:
            raise Unsupported("key of the split")
        ks["split"] = roots[0]
    for nm, k in ks.items():
        r, _ = key_path(k)
        v.prove_eq(f"{label}: the seed determines the {nm}", r, root, p)
    ns = sorted(ks)
    for i, x in enumerate(ns):
        for y in ns[:i]:
            independent_keys(v, f"{label}: {y} and {x} are independent", ks[y], ks[x], p.ctx)


def run_twice(make, x, y):
    def run():
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            e = make()
            before = e.trained_critic
            res = e.estimate_with_info(x, y)
            crit = e.trained_critic
            est = e.estimate(x, y)
            params = e.parameters()
        return e, before, crit, res, est, params
    return run


def declared(v, label, params, kw, extra, p):
    for k, w in {**kw, **extra}.items():
        if k == "hidden_layers":
            continue
        if not hasattr(params, k):
            v.fail(f"{label}: {k} is reported", f"parameters have no {k}", p)
            continue
        g = getattr(params, k)
        if isinstance(w, (bool, str)) or w is None:
            v.check(f"{label}: reported {k}", g is w or (not isinstance(g, (SV, SArr)) and g == w and type(g) is type(w)), f"{g!r} instead of {w!r}", p)
        elif g is None:
            v.fail(f"{label}: reported {k}", "None", p)
        else:
            v.prove_eq(f"{label}: reported {k}", g, w, p)


def data(n):
    dx, dy = posint("dx"), posint("dy")
    return dx, dy, array("px", n, dx), array("py", n, dy)


def variants(depths):
    fr = pos("frac")
    for q, depth in enumerate(depths):
        for frac in (fr, None):
            for std in (True, False):
                for verbose in (False, True):
                    if (std, verbose) in ((True, False), (False, True)) or q == 0:
                        yield frac, std, verbose, depth


def pre_of(frac, n):
    if frac is None:
        return []
    fl = app("floor", mul(frac.t, n.t))
    return [lt(frac.t, ONE), le(ONE, fl), le(fl, sub(n.t, ONE))]


@contract("C16", N + "_estimators:NeuralEstimatorBase", "any objectives, critic factory, settings and data (both sets of the split non-empty)",
          "the data is standardised as declared and split once; training runs the given objectives with exactly the declared settings on the training set "
          "and tests on the test set; initialisation, split and training use independent keys of the declared seed; a batch larger than the training set "
          "gives NaN and a flag; estimate() agrees; the settings are reported")
def base(v):
    n = posint("n")
    for frac, std, verbose, _ in variants([None]):
        for own_test in (True, False):
            kw = settings(frac, std, None)
            dx, dy, x, y = data(n)
            holder = {}

            def factory(key, dim_x, dim_y):
                holder.setdefault("factory", []).append((jax_.keyterm(key), dim_x, dim_y))
                return tr.C(app("fresh_critic", jax_.keyterm(key), t_(dim_x), t_(dim_y)))

            f_train, f_test = c15.objective("mi"), c15.objective("mi_test")

            def run():
                mod, calls = prepared("basic")
                holder.clear()
                holder["calls"] = calls
                extra = dict(mi_formula_test=f_test) if own_test else {}
                e = mod.NeuralEstimatorBase(mi_formula=f_train, mi_formula_name="name", critic_factory=factory, verbose=verbose, **extra, **kw)
                return run_twice(lambda: e, x, y)() + (calls, list(holder.get("factory", [])))
            for p in v.explore(run, pre_of(frac, n)):
                if not v.returns("estimates", p):
                    continue
                e, before, crit, res, est, params, calls, made = p.result
                lab = "base"
                a = check_run(v, p, kw, (res, None, est), calls, params, n, dx, dy, lab)
                declared(v, lab, params, kw, {"mi_formula": "name"}, p)
                v.check(f"{lab}: no trained critic before", before is None, "", p)
                if a is None:
                    v.check(f"{lab}: no trained critic without training", crit is None, "", p)
                    continue
                same_calls(v, lab, calls, p)
                v.check(f"{lab}: the objective", a["mi_formula"] is f_train, "", p)
                tf = a["mi_formula_test"]
                v.check(f"{lab}: the test objective", tf is (f_test if own_test else f_train) or (tf is None and not own_test), "", p)
                v.prove_eq(f"{lab}: the trained critic is stored", seq.vterm(crit), app("trained", ONE), p)
                if len(made) != 2:
                    raise Unsupported("critic factory called more than once per estimate")
                k, a1, a2 = made[0]
                v.prove_eq(f"{lab}: dimensions of the critic", (a1, a2), (dx, dy), p)
                v.prove_eq(f"{lab}: the critic of the factory is trained", seq.vterm(a["critic"]), app("fresh_critic", k, dx.t, dy.t), p)
                v.prove_eq(f"{lab}: the same critic initialisation in estimate()", made[1][0], k, p)
                keys_of(v, lab, a, k, frac, kw["seed"], p)


def check_mlp(v, lab, crit, kw, dx, dy, p):
    """the critic is an MLP with the declared hidden layers; returns the key of its first layer"""
    ls = list(crit.layers)
    hid = list(kw["hidden_layers"])
    v.check(f"{lab}: number of layers", len(ls) == len(hid) + 1, str(len(ls)), p)
    dims = [add(dx.t, dy.t)] + [h.t for h in hid] + [ONE]
    for q, l in enumerate(ls[:len(hid) + 1]):
        v.prove_eq(f"{lab}: size of layer {q}", (l.in_features, l.out_features), (wrap(dims[q]), wrap(dims[q + 1])), p)
    keys = [l.key_t for l in ls]
    for a in range(len(keys)):
        for b in range(a):
            v.check(f"{lab}: layers are initialised with different keys", keys[a] is not keys[b], "", p)
    return keys[0]


def objective_is(v, lab, f, want, p):
    """the function is the variational formula (of C14) for every critic and batch"""
    n, dx, dy, xs, ys, S = c14.batch()
    for q in v.explore(lambda: f(c14.Critic(), xs, ys), [le(num(2), n.t)]):
        if v.returns(f"{lab}: accepts every batch", q):
            v.prove_eq(lab, q.result, want(n.t, S), q)


def _estimator(cls, formula, want):
    def c(v):
        n = posint("n")
        for backend in ("quadratic", "linear"):
            for frac, std, verbose, depth in (variants([2, 0, 1, 3]) if backend == "quadratic" else [(pos("frac"), True, False, 2)]):
                kw = settings(frac, std, depth)
                dx, dy, x, y = data(n)

                def run():
                    mod, calls = prepared("basic")
                    e = getattr(mod, cls)(verbose=verbose, _train_backend=backend, **kw)
                    return run_twice(lambda: e, x, y)() + (calls,)
                objs = []
                for p in v.explore(run, pre_of(frac, n)):
                    if not v.returns("estimates", p):
                        continue
                    e, before, crit, res, est, params, calls = p.result
                    lab = f"{depth} hidden layers"
                    a = check_run(v, p, kw, (res, None, est), calls, params, n, dx, dy, lab)
                    declared(v, lab, params, kw, {"mi_formula": formula}, p)
                    hl = list(params.critic_params.hidden_layers)
                    v.check(f"{lab}: reported number of hidden layers", len(hl) == depth, str(len(hl)), p)
                    v.prove_eq(f"{lab}: reported hidden layers", tuple(hl), tuple(kw["hidden_layers"]), p)
                    if a is None:
                        continue
                    same_calls(v, lab, calls, p)
                    v.prove_eq(f"{lab}: the trained critic is stored", seq.vterm(crit), app("trained", ONE), p)
                    key = check_mlp(v, lab, a["critic"], kw, dx, dy, p)
                    keys_of(v, lab, a, key, frac, kw["seed"], p)
                    objs.append((a["mi_formula"], a["mi_formula_test"]))
                if objs and depth == 2 and (frac is not None) and std:
                    objective_is(v, f"training objective ({backend} backend)", objs[0][0], want, None)
                    objective_is(v, "test objective", objs[0][1] if objs[0][1] is not None else objs[0][0], want, None)
        mod = loader.load(N + "_estimators")
        for p in v.explore(lambda: getattr(mod, cls)(_train_backend="other")):
            v.raises("unknown backends are rejected", p)
    c.__name__ = cls.replace("Estimator", "").lower()
    return c


for _cls, _formula, _want in (("InfoNCEEstimator", "InfoNCE", c14.w_infonce), ("NWJEstimator", "NWJ", c14.w_nwj),
                              ("DonskerVaradhanEstimator", "Donsker-Varadhan", c14.w_dv)):
    contract("C16", f"{N}_estimators:{_cls}", "any settings, 0 to 3 hidden layers of any sizes, both backends, any data",
             f"as NeuralEstimatorBase with the {_formula} formula as training and test objective and an MLP critic with the declared hidden layers")(
                 _estimator(_cls, _formula, _want))


@contract("C16", N + "_mine_estimator:MINEEstimator", "any settings, 0 to 3 hidden layers of any sizes, any data",
          "as NeuralEstimatorBase with MINE training at the declared smoothing and an MLP critic with the declared hidden layers")
def mine(v):
    n = posint("n")
    al = pos("alpha")
    for frac, std, verbose, depth in variants([2, 0, 1, 3]):
        kw = settings(frac, std, depth)
        dx, dy, x, y = data(n)

        def run():
            mod, calls = prepared("mine")
            e = mod.MINEEstimator(verbose=verbose, smoothing_alpha=al, **kw)
            return run_twice(lambda: e, x, y)() + (calls,)
        for p in v.explore(run, pre_of(frac, n) + [lt(al.t, ONE)]):
            if not v.returns("estimates", p):
                continue
            e, before, crit, res, est, params, calls = p.result
            lab = f"{depth} hidden layers"
            a = check_run(v, p, kw, (res, None, est), calls, params, n, dx, dy, lab)
            declared(v, lab, params, kw, {"smoothing_alpha": al}, p)
            hl = list(params.hidden_layers)
            v.check(f"{lab}: reported number of hidden layers", len(hl) == depth, str(len(hl)), p)
            v.prove_eq(f"{lab}: reported hidden layers", tuple(hl), tuple(kw["hidden_layers"]), p)
            if a is None:
                continue
            same_calls(v, lab, calls, p)
            v.prove_eq(f"{lab}: smoothing of the training", a["alpha"], al, p)
            v.prove_eq(f"{lab}: the trained critic is stored", seq.vterm(crit), app("trained", ONE), p)
            key = check_mlp(v, lab, a["critic"], kw, dx, dy, p)
            keys_of(v, lab, a, key, frac, kw["seed"], p)


@contract("C16", N + "_estimators:NeuralEstimatorBase, " + N + "_mine_estimator:MINEEstimator", "any data, estimated first or after any other data; any settings",
          "the training of one estimate (data, keys, initial critic and settings) does not depend on what the instance was used for before")
def reuse(v):
    n, n2 = posint("n"), posint("n2")
    dx, dy, x, y = data(n)
    dx2, dy2 = posint("dx2"), posint("dy2")
    fr = pos("frac")
    for which in ("basic", "mine"):
        kw = settings(fr, False, None if which == "basic" else 1)
        for same in (True, False):
            m = n if same else n2
            first = (array("px2", m, dx2), array("py2", m, dy2))
            state = {}

            def make():
                mod, calls = state["mod"]
                if which == "mine":
                    return mod.MINEEstimator(verbose=False, **kw)
                return mod.NeuralEstimatorBase(mi_formula=c15.objective("mi"), mi_formula_name="name", verbose=False,
                                               critic_factory=lambda key, dim_x, dim_y: tr.C(app("fresh_critic", jax_.keyterm(key), t_(dim_x), t_(dim_y))), **kw)

            def call(e, a):
                calls = state["mod"][1]
                del calls[:]
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    r = e.estimate_with_info(*a)
                done = [[(k, seq.vterm(c[k])) for k in sorted(c) if k not in ("verbose", "mi_formula", "mi_formula_test", "critic")] +
                        [("critic", [l.key_t for l in c["critic"].layers] if hasattr(c["critic"], "layers") else seq.vterm(c["critic"]))] for c in calls]
                return r.mi_estimate, done, seq.vterm(e.trained_critic) if calls else None

            made = []

            def fresh_make():
                if len(made) % 2 == 0:  # the used and the new instance of a path share the module
                    state["mod"] = prepared(which)
                made.append(1)
                return make()
            pre = pre_of(fr, n) + ([] if same else pre_of(fr, n2))
            history(v, f"{which}, {'as many' if same else 'other number of'} points", fresh_make, first, (x, y), call=call, pre=pre)
