"""C21: result tables aggregate exactly the requested runs."""
from .. import evalnum, solve
from ..shims import pandas_
from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..terms import FALSE

KEYS = [0.25, 1.25]
evalnum.ENUM.update({"col_task_id": KEYS, "col_estimator_id": KEYS, "col_n_samples": [1, 2], "col_seed": [0, 1, 2]})
FILE = "workflows/benchmark/_utils.py"


def results():
    """any result table: rows with text columns as opaque values; the true information depends on the task only; no task
    or estimator is called "True MI" """
    N = posint("N")
    c = lambda n: (lambda r: app("col_" + n, r))
    cols = {n: (c(n), "num") for n in ("estimator_id", "task_id", "mi_estimate", "extra")}
    cols["n_samples"] = (lambda r: app("col_n_samples", r, sort="I"), "num")
    cols["seed"] = (lambda r: app("col_seed", r, sort="I"), "num")
    cols["mi_true"] = (lambda r: app("true_mi", app("col_task_id", r)), "num")
    order = ["task_id", "estimator_id", "mi_estimate", "mi_true", "n_samples", "seed", "extra"]
    return N, pandas_.Table(N.t, {n: cols[n] for n in order})


def col(n, r):
    return app("col_" + n, r, **({"sort": "I"} if n in ("n_samples", "seed") else {}))


def runs(N, a, b, n):
    """the runs of task a and estimator b with n samples (all sample sizes for None)"""
    return lambda r: and_(eq(col("task_id", r), a), eq(col("estimator_id", r), b), *([] if n is None else [eq(col("n_samples", r), n)]))


def converged(N, r):
    q = fresh("q")
    c = and_(*[eq(col(k, q), col(k, r)) for k in ("estimator_id", "task_id", "n_samples")])
    return lt(mul(num(tm.Fr(1, 10)), app("max_where", tm.arr(N, q, ite(c, col("mi_estimate", q), tm.NINF)))), col("mi_estimate", r))


def total(N, cond, f):
    q = fresh("q")
    return sum_(q, ZERO, N, mul(ite(cond(q), ONE, ZERO), f(q)))


def cell_is(v, label, p, cell, count, value, defect, finding):
    """the cell has a value iff runs are counted, and then it is the aggregate; or exactly the recorded defect"""
    cond, got = cell

    def same(cnt, val):
        has = lt(ZERO, cnt)
        return solve.prove_eq(ite(cond, ONE, ZERO), ite(has, ONE, ZERO), p.ctx) and solve.prove_eq(got, val, p.ctx.plus(has))
    if same(count, value):
        v.ok(f"{label}: present exactly when there are runs")
        return v.ok(f"{label}: aggregate of exactly the requested runs")
    if same(*defect):
        v.known_hits.add(finding)
        return v.ok(f"{label}: aggregate over all sample sizes (known finding)")
    has = lt(ZERO, count)
    v.prove_eq(f"{label}: present exactly when there are runs", ite(cond, ONE, ZERO), ite(has, ONE, ZERO), p)
    v.prove_eq(f"{label}: aggregate of exactly the requested runs", got, value, p.ctx.plus(has))


def unmodified(v, t, before, p):
    v.check("the results keep their columns", list(t.cols) == list(before.cols), str(list(t.cols)), p)
    v.check("the results keep their rows", t.keep is before.keep and t.n is before.n, "", p)
    v.check("the results keep their values", all(t.cols[c][0] is before.cols[c][0] for c in before.cols if c in t.cols), "", p)


def table_of(s):
    d = s.data if isinstance(s, pandas_.Styler) else s
    if not isinstance(d, pandas_.Pivot):
        raise Unsupported("a result that is not a pivoted table")
    if (d.idx, d.col) != ("task_id", "estimator_id"):
        raise Unsupported("a table with other axes")
    return d


def setup(given):
    loader.reset()
    mod = loader.load_file(FILE, "_bmi_workflow_utils")
    N, t = results()
    n = integer("n") if given else None
    q = fresh("q")
    want = n.t if given else app("max_where", tm.arr(N.t, q, ite(TRUE, col("n_samples", q), tm.NINF)))
    return mod, N.t, t, n, want


def true_label():
    return seq.vterm("True MI")


def key_var(v, name):
    x = fresh(name, "R")
    v.hints[x] = lambda r: r.choice(KEYS)
    return x


def ordinary(b):
    return not_(eq(b, true_label()))


@contract("C21", f"{FILE}:create_benchmark_table", "any results (any rows, tasks, estimators, sample sizes), any requested sample size or none (the largest), all or only converged runs",
          "the cell of a task and an estimator has a value iff there are such runs with the requested sample size, and then it is their mean; the column True MI holds the true "
          "information of the task; the results are not modified")
def benchmark_table(v):
    for given in (True, False):
        for conv in (False, True):
            mod, N, t, n, want = setup(given)
            before = pandas_.Table(t.n, t.cols, t.keep)
            for p in v.explore(lambda: mod.create_benchmark_table(t, **({"n_samples": n} if given else {}), **({"converged_only": True} if conv else {}))):
                if not v.returns("a table", p):
                    continue
                d = table_of(p.result)
                unmodified(v, t, before, p)
                a, b = key_var(v, "task"), key_var(v, "estimator")

                def agg(m):
                    sel = runs(N, a, b, m)
                    use = (lambda r: and_(sel(r), converged(N, r))) if conv else sel
                    cnt = total(N, use, lambda r: ONE)
                    return cnt, div(total(N, use, lambda r: col("mi_estimate", r)), cnt)
                p.ctx = p.ctx.plus(ordinary(b))
                cells = [c for c in d.cell(a, b) if p.ctx.decide(c[0]) is not False]
                if len(cells) != 1:
                    raise Unsupported("several cells for a task and an estimator")
                cell_is(v, "cell", p, cells[0], *agg(want), agg(None), "C21-benchmark-n")
                # the True MI column
                r = fresh("r")
                j = fresh("j")
                c = p.ctx.plus(le(ZERO, r), lt(r, N), tm.forall(j, ZERO, N, not_(eq(col("estimator_id", j), true_label()))))
                for cond, val in d.cell(col("task_id", r), true_label()):
                    cond = solve.simp(cond, c)
                    if cond is not FALSE:
                        v.prove_eq("True MI column", val, app("true_mi", col("task_id", r)), c.plus(cond))


@contract("C21", f"{FILE}:create_convergence_table", "any results, any requested sample size or none (the largest)",
          "the cell of a task and an estimator has a value iff there are such runs with the requested sample size, and then it is the fraction of them with an estimate above 10% "
          "of the largest one of the same task, estimator and sample size; the results are not modified")
def convergence_table(v):
    for given in (True, False):
        mod, N, t, n, want = setup(given)
        before = pandas_.Table(t.n, t.cols, t.keep)
        for p in v.explore(lambda: mod.create_convergence_table(t, **({"n_samples": n} if given else {}))):
            if not v.returns("a table", p):
                continue
            d = table_of(p.result)
            unmodified(v, t, before, p)
            a, b = key_var(v, "task"), key_var(v, "estimator")

            def agg(m):
                sel = runs(N, a, b, m)
                cnt = total(N, sel, lambda r: ONE)
                return cnt, div(total(N, sel, lambda r: ite(converged(N, r), ONE, ZERO)), cnt)
            cells = d.cell(a, b)
            if len(cells) != 1:
                raise Unsupported("several cells for a task and an estimator")
            cell_is(v, "cell", p, cells[0], *agg(want), agg(None), "C21-convergence-n")
