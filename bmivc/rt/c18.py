import copy
import os
import tempfile
from enum import Enum

import numpy as np
import yaml

from .core import check


def _sample(r, d):
    save = r.get("bmi.utils", "save_sample", optional=False)
    n, dx, dy = r.choice([1, 5, 30, 1500]), r.int(1, 12), r.int(1, 11)
    x, y = r.rng.normal(size=(n, dx)), r.rng.normal(size=(n, dy))
    p = os.path.join(d, "s.csv")
    save(p, x, y)
    return p, x, y


class MyErr(Exception):
    pass


@check("C18", 48, 150, ["bmi.benchmark.result:run_estimator"])
def records(r):
    run = r.get("bmi.benchmark", "run_estimator", optional=False)
    I = r.get("bmi.interface", "IMutualInformationPointEstimator", optional=False)
    ER = r.get("bmi.interface", "EstimateResult", optional=False)
    k = r.i % 8
    mi = r.choice([0.0, 1.5, -0.25, float("nan"), float("inf")]) if k == 0 else r.real(-1, 3)
    info = r.choice([{}, {"a": 1, "shared": "estimator"}])
    seen = []
    keep_result = []

    class E(I):
        def estimate(self, x, y):
            seen.append((np.array(x), np.array(y)))
            if k == 1:
                raise ValueError("bad data")
            if k == 2:
                e = MyErr("failed")
                e.output = b"some output"
                raise e
            x[...] = 0  # an estimator may overwrite what it is given
            return mi

        def parameters(self):
            return None

        def estimate_with_info(self, x, y):
            v = self.estimate(x, y)
            if k == 3:
                res = ER(mi_estimate=v, time_in_seconds=12.5, additional_information=info)
            elif k == 4:
                res = ER(mi_estimate=v, time_in_seconds=0.0, additional_information=info)
            else:
                res = ER(mi_estimate=v, additional_information=info)
            keep_result.append(res)
            return res

    class Plain(I):
        def estimate(self, x, y):
            seen.append((np.array(x), np.array(y)))
            return mi

        def parameters(self):
            return None

    e = Plain() if k == 5 else E()
    mine = r.choice([None, {}, {"b": 2, "shared": "caller"}, {"b": [1, 2]}])
    mine0, info0 = copy.deepcopy(mine), copy.deepcopy(info)
    seed = r.choice([None, 0, 7])
    with tempfile.TemporaryDirectory() as d:
        p, x, y = _sample(r, d)
        raw = open(p, "rb").read()
        r.note(kind=k, mi=mi, info=info, caller=mine, seed=seed, n=len(x))
        kw = {}
        if mine is not None:
            kw["additional_information"] = mine
        if seed is not None:
            kw["seed"] = seed
        res = run(estimator=e, estimator_id="est", sample_path=p, task_id="task", **kw)
        r.eq(open(p, "rb").read(), raw, "the sample file is unchanged")
        # recorded finding: a non-empty dictionary of the caller is extended to the merged information
        r.known("C18-caller-dict", mine == mine0, bool(mine0) and mine == res.additional_information and all(q in mine for q in mine0),
                "the caller's dictionary is unchanged", got=mine, expected=mine0)
        r.eq(info, info0, "the estimator's dictionary is unchanged")
        r.eq((res.estimator_id, res.task_id, res.seed, res.n_samples), ("est", "task", seed, len(x)), "identifiers, seed and number of samples")
        r.eq(len(seen), 1, "the estimator is run once")
        r.same(seen[0][0], x, "x of the file")
        r.same(seen[0][1], y, "y of the file")
        exp = dict(mine or {})
        if k in (1, 2):
            r.true(np.isnan(res.mi_estimate) and res.success is False, "failing estimator", got=(res.mi_estimate, res.success))
            r.true(("bad data" if k == 1 else "failed") in res.additional_information.get("error", ""), "error text", got=res.additional_information)
            if k == 2:
                r.true("some output" in res.additional_information.get("subprocess_output", ""), "output of the failing program")
            for q, v in exp.items():
                r.eq(res.additional_information.get(q), v, "caller's information kept")
        else:
            r.close(res.mi_estimate, mi, "estimate", rtol=0, atol=0)
            r.eq(res.success, True, "success")
            if k != 5:
                exp.update(info)
            r.eq(res.additional_information, exp, "merged information")
            if k == 3:
                r.close(res.time_in_seconds, 12.5, "reported time")
            elif k == 4:
                r.close(res.time_in_seconds, 0.0, "reported time of zero seconds", atol=0)
            else:
                r.true(0 <= res.time_in_seconds < 100, "measured time", got=res.time_in_seconds)
        out = os.path.join(d, "r.yaml")
        res.dump(out)
        back = yaml.safe_load(open(out))
        cmp = lambda a, b: (isinstance(a, float) and isinstance(b, float) and np.isnan(a) and np.isnan(b)) or a == b
        for q, v in res.dict().items():
            r.true(cmp(back[q], v), f"dumped field {q}", got=back[q], expected=v)


@check("C18", 8, 20, ["bmi.benchmark.result:run_estimator"])
def external(r):
    run = r.get("bmi.benchmark", "run_estimator", optional=False)
    X = r.get("bmi.estimators.external.external_estimator", "ExternalEstimator", optional=False)
    ER = r.get("bmi.interface", "EstimateResult", optional=False)
    got = []

    class E(X):
        def estimate_with_info_from_path(self, path):
            got.append(path)
            if r.i % 2:
                raise RuntimeError("no R here")
            return ER(mi_estimate=0.5, additional_information={"c": 3})

        def estimate_with_info(self, x, y):
            got.append("arrays")
            return ER(mi_estimate=9.0)

        def parameters(self):
            return None

    with tempfile.TemporaryDirectory() as d:
        p, x, _ = _sample(r, d)
        res = run(E(), "e", p, "t", seed=3, additional_information={"d": 4})
        r.eq(got, [p], "external estimators are given the path")
        if r.i % 2:
            r.true(np.isnan(res.mi_estimate) and not res.success and "no R here" in res.additional_information["error"], "failure", got=res)
        else:
            r.eq((res.mi_estimate, res.success, res.additional_information), (0.5, True, {"c": 3, "d": 4}), "record")


@check("C18", 4, 10, ["bmi.benchmark.utils.dict_dumper:DictDumper.represent_data", "bmi.benchmark.result:RunResult.dump"])
def dump(r):
    RR = r.get("bmi.benchmark", "RunResult", optional=False)
    import pathlib

    class Col(Enum):
        RED = "red"

    info = {"f": np.float64(1.25), "i": np.int64(3), "b": np.bool_(True), "a": np.arange(3.0), "p": pathlib.Path("/tmp/x"), "e": Col.RED,
            "n": {"q": np.float32(0.5), "l": [np.float64(2.0)]}, "none": None, "s": "text: with colon\nand newline", "t": [1, "x"]}
    plain = {"f": 1.25, "i": 3, "b": True, "a": [0.0, 1.0, 2.0], "p": "/tmp/x", "e": "red", "n": {"q": 0.5, "l": [2.0]}, "none": None,
             "s": "text: with colon\nand newline", "t": [1, "x"]}
    res = RR(mi_estimate=np.float64(0.75), time_in_seconds=np.float32(0.5), success=True, estimator_id="e", task_id="t", n_samples=np.int64(4), seed=None,
             additional_information=info)
    with tempfile.TemporaryDirectory() as d:
        res.dump(os.path.join(d, "r.yaml"))
        back = yaml.safe_load(open(os.path.join(d, "r.yaml")))
    r.eq(back, dict(mi_estimate=0.75, time_in_seconds=0.5, success=True, estimator_id="e", task_id="t", n_samples=4, seed=None, additional_information=plain), "dumped record")
