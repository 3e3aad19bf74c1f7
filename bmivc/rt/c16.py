import jax
import jax.numpy as jnp
import numpy as np

from .core import check

N = "bmi.estimators.neural."


def _base(r, rec_train, rec_test, **kw):
    B = r.get("bmi.estimators", "NeuralEstimatorBase", optional=False)
    import equinox as eqx

    class W(eqx.Module):
        w: jnp.ndarray

        def __call__(self, x, y):
            return self.w

    dims = []

    def factory(key, dim_x, dim_y):
        dims.append((dim_x, dim_y))
        return W(jnp.float32(0.0))

    def train(c, a, b):
        jax.debug.callback(lambda p, q: rec_train.append((np.array(p), np.array(q))), a, b)
        return c.w * 1.0

    def test(c, a, b):
        jax.debug.callback(lambda p, q: rec_test.append((np.array(p), np.array(q))), a, b)
        return jnp.float32(0.25)

    return B(mi_formula=train, mi_formula_name="custom", critic_factory=factory, mi_formula_test=test, verbose=False, **kw), dims


@check("C16", 24, 80, [N + "_estimators:NeuralEstimatorBase.estimate_with_info", N + "_estimators:train_test_split", N + "_basic_training:get_batch"])
def data_flow(r):
    tr, te = [], []
    n = r.choice([6, 20, 37, 150])
    split = r.choice([None, 0.5, 0.3, 0.8])
    n_train = n if split is None else int(n * split)
    bs = r.choice([1, max(1, n_train - 1), n_train, 3 if n_train >= 3 else 1])
    bs = min(bs, max(1, n_train))
    steps, every, seed = r.choice([1, 4, 7]), r.choice([1, 2, 3]), r.int(0, 50)
    lr = r.choice([0.1, 0.03])
    std = bool(r.i % 2)
    e, dims = _base(r, tr, te, batch_size=bs, max_n_steps=steps, train_test_split=split, test_every_n_steps=every, learning_rate=lr,
                    standardize=std, seed=seed)
    x = np.arange(n, dtype=float)[:, None] * np.array([[1.0, 2.0]]) + np.array([[1.0, 5.0]])
    y = 1000.0 + x[:, :1] * 3
    perm = r.rng.permutation(n)
    x, y = x[perm], y[perm]
    r.note(n=n, train_test_split=split, batch_size=bs, steps=steps, every=every, standardize=std, seed=seed)
    x0, y0 = x.copy(), y.copy()
    res = e.estimate_with_info(x, y)
    jax.effects_barrier()
    r.same(x, x0, "x unchanged")
    r.same(y, y0, "y unchanged")
    X, Y = x, y
    if std:
        X, Y = (x - x.mean(0)) / x.std(0), (y - y.mean(0)) / y.std(0)
    key = lambda row: int(np.argmin(np.abs(X[:, 0] - row)))
    ids = lambda a: [key(v) for v in np.asarray(a, float)[:, 0]]

    def paired(a, b, what):
        i = ids(a)
        r.close(a, X[i], f"{what}: rows of X", rtol=1e-5, atol=1e-5)
        r.close(b, Y[i], f"{what}: X and Y stay paired", rtol=1e-5, atol=1e-5)
        return i

    r.eq(dims, [(2, 1)], "critic is built once for the dimensions of the data")
    es = res.additional_information["n_training_steps"]
    exp = steps if len([k for k in range(1, steps + 1) if k % every == 0]) < 3 else min(steps, 3 * every)
    r.eq(es, exp, "number of training steps (constant test value stops after three tests)")
    r.eq(len(tr), es, "one minibatch per step")
    r.eq(len(te), es // every, "one test evaluation every interval")
    r.close(res.mi_estimate, 0.25 if te else float("nan"), "estimate is the test objective", rtol=1e-6)
    used = set()
    for a, b in tr:
        i = paired(a, b, "training batch")
        r.eq(len(i), bs, "batch size")
        r.eq(len(set(i)), bs, "batch rows are distinct")
        used |= set(i)
    for a, b in te:
        i = paired(a, b, "test set")
        if split is None:
            r.eq(sorted(i), list(range(n)), "without a split the test set is the full data")
        else:
            r.eq(len(i), n - n_train, "size of the test set")
            r.eq(len(set(i)), len(i), "test rows are distinct")
            r.true(not (used & set(i)), "train and test are disjoint", train=sorted(used), test=sorted(i))
    if bs == n_train and split is None and tr:
        r.eq(sorted(used), list(range(n)), "without a split the training set is the full data")
    if bs == n_train and split is not None and te:
        r.eq(sorted(used | set(ids(te[0][0]))), list(range(n)), "each point is in training or test")
    r.close(float(e.trained_critic.w), lr * es, "learning rate", rtol=1e-2)
    p = e.parameters()
    r.eq((p.batch_size, p.max_n_steps, p.train_test_split, p.test_every_n_steps, p.learning_rate, p.standardize, p.seed, p.mi_formula),
         (bs, steps, split, every, lr, std, seed, "custom"), "reported parameters")
    if steps > 1 and bs < n_train:
        r.true(any(ids(a) != ids(tr[0][0]) for a, _ in tr[1:]) or es == 1 or n_train < 4, "batches are resampled")


@check("C16", 8, 24, [N + "_estimators:NeuralEstimatorBase.estimate_with_info", N + "_mine_estimator:MINEEstimator.estimate_with_info"])
def too_small(r):
    cls = ["InfoNCEEstimator", "NWJEstimator", "DonskerVaradhanEstimator", "MINEEstimator"][r.i % 4]
    E = r.get("bmi.estimators", cls, optional=False)
    n, split = r.choice([(10, 0.5), (9, None), (40, 0.2)])
    n_train = n if split is None else int(n * split)
    e = E(batch_size=n_train + 1, train_test_split=split, max_n_steps=2, verbose=False)
    x = r.rng.normal(size=(n, 2))
    r.note(cls=cls, n=n, train_test_split=split, batch_size=n_train + 1)
    res = e.estimate_with_info(x, x[:, :1])
    r.true(np.isnan(res.mi_estimate), "estimate is NaN", got=res.mi_estimate)
    r.eq(res.additional_information.get("batch_size_larger_than_train"), True, "flag")
    r.true(np.isnan(e.estimate(x, x[:, :1])), "estimate() is NaN")


@check("C16", 8, 24, [N + "_estimators:InfoNCEEstimator.__init__", N + "_estimators:NWJEstimator.__init__", N + "_estimators:DonskerVaradhanEstimator.__init__",
                      N + "_mine_estimator:MINEEstimator.__init__"])
def declared(r):
    """The estimator uses the objective, steps, batch, learning rate and seed it reports."""
    cls, formula = [("InfoNCEEstimator", "InfoNCE"), ("NWJEstimator", "NWJ"), ("DonskerVaradhanEstimator", "Donsker-Varadhan"), ("MINEEstimator", None)][r.i % 4]
    E = r.get("bmi.estimators", cls, optional=False)
    kw = dict(batch_size=r.choice([4, 7]), max_n_steps=r.choice([3, 6]), train_test_split=r.choice([0.5, None]), test_every_n_steps=r.choice([1, 2]),
              learning_rate=r.choice([0.05, 0.01]), hidden_layers=r.choice([(3,), (4, 2)]), standardize=bool(r.int(0, 1)), seed=r.int(0, 9))
    if cls == "MINEEstimator":
        kw["smoothing_alpha"] = r.choice([0.3, 0.95])
    r.note(cls=cls, **kw)
    e = E(verbose=False, **kw)
    p = e.parameters().dict()
    for k, v in kw.items():
        if k == "hidden_layers":
            r.eq(list((p.get("critic_params") or p)["hidden_layers"]), list(v), "reported hidden_layers")
        else:
            r.eq(p[k], v, f"reported {k}")
    if formula:
        r.eq(p["mi_formula"], formula, "reported objective")
    z = r.rng.normal(size=(30, 1))
    x, y = z + 0.2 * r.rng.normal(size=(30, 1)), np.hstack([z, r.rng.normal(size=(30, 1))])
    res = e.estimate_with_info(x, y)
    r.true(res.additional_information["n_training_steps"] <= kw["max_n_steps"], "at most max_n_steps")
    th = res.additional_information["test_history"]
    r.eq([a for a, _ in th], [k for k in range(1, res.additional_information["n_training_steps"] + 1) if k % kw["test_every_n_steps"] == 0], "test steps")
    r.close(float(res.mi_estimate), max(float(b) for _, b in th), "estimate is the best test value", rtol=1e-6)
    r.close(float(E(verbose=False, **kw).estimate(x, y)), float(res.mi_estimate), "estimating with and without information agrees", rtol=1e-6)
    if r.i % 2:  # an instance that was used for other data in between
        u = E(verbose=False, **kw)
        u.estimate(x[::-1], y * 2 + 1)
        r.close(float(u.estimate(x, y)), float(res.mi_estimate), "estimate of an instance used before", rtol=1e-6)
    # one step of Adam moves the critic by the learning rate
    one = {}
    for lr in (kw["learning_rate"], 3 * kw["learning_rate"]) if r.i < 4 else ():
        q = E(verbose=False, **{**kw, "max_n_steps": 1, "test_every_n_steps": 1, "learning_rate": lr})
        q.estimate(x, y)
        one[lr] = np.concatenate([np.ravel(w) for l in q.trained_critic.layers for w in (l.weight, l.bias) if w is not None])
    if one:
        a, b = one.values()
        r.close(float(np.max(np.abs(a - b))), 2 * kw["learning_rate"], "the first step follows the learning rate", rtol=0.05)
    c = e.trained_critic
    r.eq([l.weight.shape[0] for l in c.layers], list(kw["hidden_layers"]) + [1], "hidden layers of the critic")
    r.eq(c.layers[0].weight.shape[1], 3, "input size of the critic")
    if th and th[-1][0] == res.additional_information["n_training_steps"] and kw["train_test_split"] is None and formula:
        from . import c14

        X, Y = ((x - x.mean(0)) / x.std(0), (y - y.mean(0)) / y.std(0)) if kw["standardize"] else (x, y)
        s = np.array([[float(c(jnp.asarray(a, jnp.float32), jnp.asarray(b, jnp.float32))) for b in Y] for a in X])
        f = {"InfoNCE": c14.ref_infonce, "NWJ": c14.ref_nwj, "Donsker-Varadhan": c14.ref_dv}[formula]
        r.close(float(th[-1][1]), f(s), "the last test value is the reported objective of the trained critic", rtol=1e-3, atol=1e-3)


@check("C16", 12, 40, [N + "_mine_estimator:_sample_paired_unpaired"])
def mine_batches(r):
    f = r.get(N + "_mine_estimator", "_sample_paired_unpaired")
    n = r.choice([5, 16])
    bs = r.choice([None, 1, 3, n])
    x = jnp.arange(n, dtype=jnp.float32)[:, None]
    y = jnp.hstack([x + 100, -x])
    r.note(n=n, batch_size=bs)
    a, p, u = (np.asarray(v) for v in f(jax.random.PRNGKey(r.i), x, y, bs))
    m = n if bs is None else bs
    r.eq((a.shape, p.shape, u.shape), ((m, 1), (m, 2), (m, 2)), "shapes")
    r.close(p, np.hstack([a + 100, -a]), "paired batch")
    r.eq(len(set(a[:, 0].tolist())), m, "distinct rows")
    r.close(u[:, 0] - 100, -u[:, 1], "unpaired rows are rows of Y")
    r.eq(len(set(u[:, 0].tolist())), m, "distinct unpaired rows")
    r.true(set(u[:, 0].tolist()) <= set(np.asarray(y)[:, 0].tolist()), "unpaired rows come from Y")
    if m >= 16:
        r.true(np.any(u != p), "negatives are shuffled")


@check("C16", 16, 60, [N + "_estimators:train_test_split"])
def split(r):
    f = r.get(N + "_estimators", "train_test_split")
    n = r.choice([1, 2, 7, 40, 3000])
    frac = [None, 0.5, 0.1, 0.9, 1.0, 0.0, 1e-9, 0.999][r.i % 8]
    x = jnp.arange(n, dtype=jnp.float32)[:, None]
    y = jnp.hstack([x + 100, -x])
    r.note(n=n, train_size=frac)
    try:
        a, b, c, d = (np.asarray(v) for v in f(x, y, frac, jax.random.PRNGKey(r.i)))
    except Exception:
        r.true(frac is not None and (frac in (0.0, 1.0) or not 0 < int(n * frac) < n), "splits")
        return
    r.close(c, np.hstack([a + 100, -a]), "training set is paired")
    r.close(d, np.hstack([b + 100, -b]), "test set is paired")
    if frac is None:
        r.eq((sorted(a[:, 0].tolist()), sorted(b[:, 0].tolist())), (list(range(n)),) * 2, "without a split both sets are the full data")
    else:
        r.eq(sorted(a[:, 0].tolist() + b[:, 0].tolist()), list(range(n)), "every point is in exactly one of the sets")
        r.eq(len(a), int(n * frac), "size of the training set")
