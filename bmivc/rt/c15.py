import jax
import jax.numpy as jnp
import numpy as np

from .core import check

N = "bmi.estimators.neural."


@check("C15", 60, 300, [N + "_training_log:TrainingLog.*"])
def log(r):
    L = r.get(N + "_training_log", "TrainingLog")
    es = bool(r.i % 2)
    n = r.choice([0, 1, 3, 9, 10, 11, 20, 40, 57])
    every = r.choice([1, 2, 3, 5])
    kind = r.choice(["up", "down", "noise", "neg", "flat", "peak"])
    t = np.arange(n)
    mi = {"up": 0.1 * t, "down": 5 - 0.05 * t, "noise": r.rng.normal(size=n) + 1, "neg": -1 - 0.1 * t + 0.0 * t, "flat": np.full(n, 0.7),
          "peak": np.where(t < n // 2, t, n - t) * 0.2}[kind].astype(np.float32)
    fac = r.choice([0.1, 0.5, 0.25, 0.05])
    kw = dict(max_n_steps=100, early_stopping=es, verbose=False)
    if fac != 0.1:
        kw["train_smooth_factor"] = fac
    log = L(**kw)
    tests, hist, stopped = [], [], []
    r.note(kind=kind, n=n, every=every, early_stopping=es, train_smooth_factor=fac)
    best = None
    for k in range(n):
        v = float(mi[k])
        log.log_train_mi(k + 1, r.choice([v, jnp.float32(v)]))
        hist.append((k + 1, v))
        if (k + 1) % every == 0:
            tv = float(np.float32(r.choice([r.real(-1, 3), 0.5, v])))
            tests.append((k + 1, tv))
            log.log_test_mi(k + 1, r.choice([tv, jnp.float32(tv)]))
        vals = [v for _, v in tests]
        exp_stop = es and len(vals) >= 3 and max(vals[-2:]) <= max(vals[:-2])
        r.true(bool(log.early_stop()) == exp_stop, f"early stopping after tests {vals}", got=log.early_stop())
        exp_final = max(vals) if vals else float("nan")
        r.close(float(log.final_mi), exp_final, "final estimate", rtol=1e-6)
        info = log.additional_information
        r.eq(info["n_training_steps"], k + 1, "steps")
        r.eq([(a, float(b)) for a, b in info["test_history"]], tests, "test history")
    if not tests:
        r.true(np.isnan(log.final_mi), "NaN without test values")
    log.finish()
    info = log.additional_information
    vals = [v for _, v in tests]
    stop = es and len(vals) >= 3 and max(vals[-2:]) <= max(vals[:-2])
    r.eq(bool(info.get("early_stopping_not_triggered", False)), es and not stop, "early_stopping_not_triggered")
    w = int(fac * n)
    r.eq(bool(info.get("training_too_short_for_diagnostics", False)), w < 1, "training_too_short_for_diagnostics")
    if w >= 1:
        s = np.array([np.mean(mi[i - w:i].astype(float)) for i in range(w, n + 1)])
        near = lambda a, b: abs(a - b) < 1e-4 * (1 + abs(a) + abs(b))
        if not near(s.max(), 1.05 * s[-1]):
            r.eq(bool(info.get("max_training_mi_decreased", False)), bool(s.max() > 1.05 * s[-1]), "max_training_mi_decreased", smoothed=s)
        if not near(s[-1], 1.05 * s[-1 - w]):
            r.eq(bool(info.get("training_mi_still_increasing", False)), bool(s[-1] > 1.05 * s[-1 - w]), "training_mi_still_increasing", smoothed=s)
    else:
        r.true("max_training_mi_decreased" not in info and "training_mi_still_increasing" not in info, "no diagnostics for short trainings")
    full = L(max_n_steps=10, early_stopping=es, verbose=False, train_history_in_additional_information=True)
    for k, v in hist:
        full.log_train_mi(k, v)
    r.eq(full.additional_information.get("training_history"), hist, "training history")
    r.raises(lambda: L(max_n_steps=1, early_stopping=False, train_smooth_factor=0.6, verbose=False), "smoothing factor above 1/2")


def scripted(values, rec):
    """A test objective returning the scripted values (also when it is compiled)."""
    arr = np.asarray(values, np.float32)

    def cb(*_):
        v = arr[min(len(rec), len(arr) - 1)]
        rec.append(float(v))
        return v

    return lambda critic, xs, ys: jax.pure_callback(cb, jax.ShapeDtypeStruct((), jnp.float32), jnp.sum(xs), jnp.sum(ys))


@check("C15", 24, 80, [N + "_basic_training:basic_training"])
def training_loop(r):
    bt = r.get(N + "_basic_training", "basic_training")
    import equinox as eqx

    class W(eqx.Module):
        w: jnp.ndarray

        def __call__(self, x, y):
            return self.w

    steps, every, es = r.choice([1, 5, 12, 20]), r.choice([1, 2, 3, 7]), bool(r.i % 3)
    vals = [r.choice([0.1, 0.5, 1.0, 2.0]) for _ in range(30)]
    if r.i % 4 == 0:
        vals = sorted(vals)
    rec, lr = [], r.choice([0.1, 0.01])
    bs = r.choice([None, 3, 8])
    xs, ys = jnp.asarray(r.rng.normal(size=(8, 1)), jnp.float32), jnp.asarray(r.rng.normal(size=(8, 2)), jnp.float32)
    r.note(max_n_steps=steps, test_every_n_steps=every, early_stopping=es, values=vals, batch_size=bs)
    kw = {} if r.i % 5 else dict(xs_test=xs[:3], ys_test=ys[:3])
    log, critic = bt(rng=jax.random.PRNGKey(r.i), critic=W(jnp.float32(0.0)), mi_formula=lambda c, a, b: c.w * 2.0 + 0 * jnp.sum(a) + 0 * jnp.sum(b),
                     xs=xs, ys=ys, mi_formula_test=scripted(vals, rec), batch_size=bs, test_every_n_steps=every, max_n_steps=steps,
                     early_stopping=es, learning_rate=lr, verbose=False, **kw)
    exp_steps, tests = steps, []
    for k in range(1, steps + 1):
        if k % every == 0:
            tests.append((k, float(np.float32(vals[len(tests)]))))
        v = [t for _, t in tests]
        if es and len(v) >= 3 and max(v[-2:]) <= max(v[:-2]):
            exp_steps = k
            break
    info = log.additional_information
    r.eq(info["n_training_steps"], exp_steps, "number of training steps")
    r.eq([(a, round(float(b), 5)) for a, b in info["test_history"]], [(a, round(b, 5)) for a, b in tests], "test evaluations")
    r.close(float(log.final_mi), max([t for _, t in tests]) if tests else float("nan"), "final value is the best test value", rtol=1e-6)
    h = getattr(log, "_mi_train_history", None)
    if h is not None:
        r.eq([k for k, _ in h], list(range(1, exp_steps + 1)), "one training record per step")
        r.close(h[0][1], 0.0, "the first record is the value before the first update", atol=1e-6)
    # Adam with a constant gradient moves the parameter by the learning rate at every step, upwards
    r.close(float(critic.w), lr * exp_steps, "gradient ascent with the given learning rate", rtol=1e-2)


@check("C15", 10, 30, [N + "_mine_estimator:mine_training"])
def mine_loop(r):
    mt = r.get(N + "_mine_estimator", "mine_training")
    import equinox as eqx

    class C(eqx.Module):
        w: jnp.ndarray
        s: jnp.ndarray

        def __call__(self, x, y):
            return self.w * 0 + y[0] * self.s

    steps, every, es = r.choice([1, 6, 11]), r.choice([1, 2, 4]), bool(r.i % 2)
    n, m = 12, r.int(3, 7)
    xs, ys = jnp.asarray(r.rng.normal(size=(n, 2)), jnp.float32), jnp.asarray(r.rng.normal(size=(n, 1)), jnp.float32)
    xt, yt = jnp.asarray(r.rng.normal(size=(m, 2)), jnp.float32), jnp.asarray(r.rng.normal(size=(m, 1)), jnp.float32)
    r.note(max_n_steps=steps, test_every_n_steps=every, early_stopping=es)
    log, c = mt(rng=jax.random.PRNGKey(r.i), critic=C(jnp.float32(1.0), jnp.float32(0.7)), xs=xs, ys=ys, xs_test=xt, ys_test=yt, batch_size=5,
                test_every_n_steps=every, max_n_steps=steps, early_stopping=es, learning_rate=1e-9, verbose=False)
    y = np.asarray(yt, float)[:, 0] * 0.7
    v = y.mean() - np.log(np.mean(np.exp(y)))
    info = log.additional_information
    th = info["test_history"]
    # the score only depends on y, so that a permuted test set gives this value at every test
    r.true(all(abs(float(b) - v) < 1e-4 for _, b in th), "test value uses the paired and a permuted test set", got=th, expected=v)
    r.true([a for a, _ in th] == [k for k in range(1, info["n_training_steps"] + 1) if k % every == 0], "test evaluations every interval", got=th)
    r.true(info["n_training_steps"] <= steps, "at most max_n_steps")
    if not es:
        r.eq(info["n_training_steps"], steps, "all steps are performed")
