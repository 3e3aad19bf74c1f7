"""C19: external estimators pass the declared parameters and return the printed number."""
import os

from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..shims import io_, pandas_

B = "bmi.estimators.external"
R_, J_ = f"{B}.r_estimators", f"{B}.julia_estimators"


def S(x):
    return seq.placeholder(x.t) if isinstance(x, SV) else str(x)


# class, parameters (name -> kind, default), options of the script
TABLE = [
    (R_, "RKSGEstimator", dict(variant=("lit", 1), neighbors=("pos", 10)), lambda p: ["--method", "KSG" + S(p["variant"]), "--neighbors", S(p["neighbors"])]),
    (R_, "RLNNEstimator", dict(k=("pos", 5), truncation=("pos", 30)), lambda p: ["--method", "LNN", "--neighbors", S(p["k"]), "--truncation", S(p["truncation"])]),
    (R_, "RBNSLEstimator", dict(proc=("nat", 10)), lambda p: ["--method", "BNSL", "--proc", S(p["proc"])]),
    (J_, "JuliaKSGEstimator", dict(variant=("lit", 1), neighbors=("pos", 10)), lambda p: ["--estimator", "KSG" + S(p["variant"]), "--neighbors", S(p["neighbors"])]),
    (J_, "JuliaHistogramEstimator", dict(bins=("two", 10)), lambda p: ["--estimator", "Histogram", "--bins", S(p["bins"])]),
    (J_, "JuliaTransferEstimator", dict(bins=("two", 10)), lambda p: ["--estimator", "Transfer", "--bins", S(p["bins"])]),
    (J_, "JuliaKernelEstimator", dict(bandwidth=("real", None)), lambda p: ["--estimator", "Kernel", "--bandwidth", S(p["bandwidth"])]),
]


def same_text(v, label, a, b, p):
    """two texts with holes are equal"""
    if not isinstance(a, str) or not isinstance(b, str):
        return v.check(label, a == b, f"{a!r} instead of {b!r}", p)

    def parts(s):
        ts, out, pos = [], "", 0
        for m in seq.PH.finditer(s):
            t = seq.UIDS[int(m.group(1))]
            sp = m.group(2)
            if sp == "d" and t.sort == "I":
                sp = ""
            out += s[pos:m.start()] + "\0" + sp
            ts.append(t)
            pos = m.end()
        return out + s[pos:], ts
    (x, tx), (y, ty) = parts(a), parts(b)
    if x != y:
        if len(tx) != len(ty) and not (set(tx) | set(ty)) <= {t for t in tx + ty if t.sort == "S"}:
            raise Unsupported(f"texts {a!r} and {b!r}")
        return v.fail(label, f"{a!r} instead of {b!r}", p)
    v.ok(label, "text")
    for s, t in zip(tx, ty):
        if s is not t:
            v.prove_eq(label, s, t, p)


def valid(kinds, ps):
    cs = []
    for k, (kind, _) in kinds.items():
        x = ps[k].t if isinstance(ps[k], SV) else num(ps[k])
        cs.append({"lit": lambda: or_(eq(x, num(1)), eq(x, num(2))), "pos": lambda: le(ONE, x), "nat": lambda: le(ZERO, x), "two": lambda: le(num(2), x),
                   "real": lambda: lt(ZERO, x)}[kind]())
    return and_(*cs)


def any_params(kinds):
    return {k: (real(k) if kind == "real" else integer(k)) for k, (kind, _) in kinds.items()}


def settle(p, ps):
    """parameters whose value the path fixes"""
    out = {}
    for k, x in ps.items():
        t = x.t
        for c in (1, 2):
            if t.sort == "I" and k == "variant" and p.ctx.entails(eq(t, num(c))):
                t = num(c)
        out[k] = SV(t)
    return out


def mk_file(dx, dy, n):
    cols = [("seg", dx.t, lambda k: "X" + seq.placeholder(k)), ("seg", dy.t, lambda k: "Y" + seq.placeholder(k))]
    return pandas_.Frame(seq.VList.from_segs(cols), n.t, lambda i, j: app("cell", i, j))


def command(v, p, c, mod, prog, script, path, dx, dy, opts):
    """the command of one call"""
    a = c["args"]
    want = [prog, os.path.join(loader.REPO, "external", script), path, S(dx), S(dy)] + opts
    if not v.check("number of arguments", len(a) == len(want), f"{a} instead of {want}", p):
        return
    for i, (x, w) in enumerate(zip(a, want)):
        if i == 2:
            # any name of the sample file will do
            v.check("argument 2: the sample file", isinstance(x, str) and io_.same_file(x) == io_.same_file(w), f"{x!r} instead of {w!r}", p)
        elif i == 1:
            v.check("argument 1: the script", isinstance(x, str) and os.path.normpath(x) == want[1], f"{x!r} instead of {w!r}", p)
        else:
            same_text(v, f"argument {i}", x, w, p)


def outcome(v, p, calls, value):
    """raised iff the script failed or printed something that is not a number; otherwise the printed number"""
    bad = any(c["failed"] for c in calls) or not all(p.ghost.get("parses", {}).values())
    if bad:
        v.raises("a failing script or an output that is not a number raises", p)
        return False
    if not v.returns("a number is returned", p):
        return False
    r = value()
    r = r.mi_estimate if hasattr(r, "mi_estimate") else r
    v.prove_eq("the printed number", r, app("printed", ZERO), p)
    return True


def common(v, row, mode):
    mod, cls, kinds, opts = row
    prog, script = ("Rscript", "rmi.R") if mod == R_ else ("julia", "mi_estimator.jl")
    loader.reset()
    C = getattr(loader.load(mod), cls)
    n, dx, dy, m = nat("n"), nat("dx"), nat("dy"), nat("m")
    given = io_.path_text("sample")
    defaults = {k: d for k, (_, d) in kinds.items() if d is not None} or {"bandwidth": 1}
    for dflt in (False, True):
        ps = {k: SV(num(x)) for k, x in defaults.items()} if dflt else any_params(kinds)
        for how in ("path", "Path") if mode == "path" else ("estimate", "estimate_with_info"):
            x, y = array("x", n, dx), array("y", m, dy)

            def run():
                e = C() if dflt else C(**ps)
                ENG.ghost["built"] = True
                if mode == "path":
                    pandas_.files()[io_.key_of(given)] = mk_file(dx, dy, n)
                    r = e.estimate_with_info_from_path(given if how == "path" else io_.Path(given))
                else:
                    r = getattr(e, how)(x, y)
                return e.parameters(), r
            for p in v.explore(run):
                if not p.ghost.get("built"):
                    v.prove("rejects only invalid parameters", not_(valid(kinds, ps)), p)
                    v.check("rejects with ValueError", isinstance(p.exc, ValueError), repr(p.exc), p)
                    continue
                v.prove("accepts only valid parameters", valid(kinds, ps), p)
                calls = p.ghost.get("calls", [])
                if mode == "memory":
                    unchanged(v, "x unchanged", x, "x", p)
                    unchanged(v, "y unchanged", y, "y", p)
                    if not rejects_iff(v, eq(n.t, m.t), p, exc=()) if not calls else False:
                        continue
                    if calls:
                        v.prove("only paired samples are passed on", eq(n.t, m.t), p)
                else:
                    v.check("the sample file is only read", not p.ghost.get("written"), "", p)
                if not v.check("the script is run once", len(calls) == 1, f"{len(calls)} calls", p):
                    continue
                q = settle(p, ps)
                c = calls[0]
                if mode == "memory":
                    a2 = c["args"][2] if len(c["args"]) > 2 else None
                    f = c["files"].get(io_.key_of(a2)) if isinstance(a2, str) else None
                    if v.check("the file given to the script exists while it runs", f is not None, f"{a2!r}", p):
                        cell = SArr((f.n, f.width), lambda i: f.val(*i))
                        prove_array(v, "the file has the points", p, cell, (n, add(dx.t, dy.t)),
                                    lambda i, j: ite(lt(j, dx.t), app("x", i, j), app("y", i, sub(j, dx.t))))
                        segs = [s for s in f.cols.segs]
                        ctx = p.ctx
                        for nm, size, off in (("X", dx, ZERO), ("Y", dy, dx.t)):
                            k = fresh("k")
                            cc = ctx.plus(le(ZERO, k), lt(k, size.t))
                            if cc.feasible():
                                v.prove_eq(f"column names {nm}", f.position(nm + seq.placeholder(k), cc), add(k, off), cc)
                    path = a2 if isinstance(a2, str) else given
                else:
                    path = given
                command(v, p, c, mod, prog, script, path, dx, dy, opts(q))
                if outcome(v, p, calls, lambda: p.result[1]):
                    d = p.result[0].dict()
                    if v.check("names of the reported parameters", set(d) == set(q), repr(sorted(d)), p):
                        for k in q:
                            v.prove_eq(f"reported {k}", d[k], q[k], p)


def family(row, mode):
    mod, cls, kinds, _ = row

    @contract("C19", f"{mod}:{cls}.*, {B}.external_estimator:ExternalEstimator.*, {B}.external_estimator:_run_command_and_read_mi, bmi.utils:read_sample_dims"
              + (", bmi.utils:save_sample" if mode == "memory" else ""),
              ("any parameters (default or given), any sample file, any outcome of the script" if mode == "path" else
               "any parameters (default or given), any two arrays, any outcome of the script"),
              "invalid parameters rejected; the script is run exactly once with the sample file, dimensions and options as declared; raises iff it "
              "fails or prints no number, otherwise its number is returned; parameters reported"
              + ("; the file holds exactly the points while the script runs" if mode == "memory" else ""))
    def f(v):
        common(v, row, mode)
    from .. import vc
    vc.CONTRACTS[-1]["name"] = f"{cls}_{mode}"


for row_ in TABLE:
    for mode_ in ("path", "memory"):
        family(row_, mode_)
