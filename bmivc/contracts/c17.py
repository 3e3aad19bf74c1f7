"""C17: saving and reading a sample is lossless and order-preserving."""
from ..vc import contract
from .lib import *  # noqa: F401,F403
from ..shims import io_, pandas_

U = "bmi.utils"
FILE = io_.path_text("sample")


def data():
    n, m, dx, dy = nat("n"), nat("m"), nat("dx"), nat("dy")
    return n, m, dx, dy


@contract("C17", f"{U}:save_sample, {U}:read_sample, {U}:read_sample_dims", "any two two-dimensional arrays (any, also unequal, lengths and any numbers of columns)",
          "AssertionError iff the lengths differ; otherwise one file is written, reading it gives X and Y (every row and column in place, exact values), reading "
          "the dimensions gives the numbers of columns; reading again gives the same; arrays unchanged")
def roundtrip(v):
    loader.reset()
    mod = loader.load(U)
    n, m, dx, dy = data()
    for jx in (False, True):
        x, y = array("x", n, dx, jax=jx), array("y", m, dy, jax=jx)

        def run():
            mod.save_sample(FILE, x, y)
            return mod.read_sample(FILE), mod.read_sample_dims(FILE), mod.read_sample(FILE), list(ENG.ghost.get("written", []))
        for p in v.explore(run):
            unchanged(v, "x unchanged", x, "x", p)
            unchanged(v, "y unchanged", y, "y", p)
            if not rejects_iff(v, eq(n.t, m.t), p, exc=()):
                v.check("nothing is written", not p.ghost.get("written"), "", p)
                continue
            (a, b), dims, (c, d), written = p.result
            v.check("the given file is written", written == [pandas_.key_of(FILE)], repr(written), p)
            prove_array(v, "X", p, a, (n, dx), lambda i, j: app("x", i, j))
            prove_array(v, "Y", p, b, (n, dy), lambda i, j: app("y", i, j))
            prove_array(v, "X again", p, c, (n, dx), lambda i, j: app("x", i, j))
            prove_array(v, "Y again", p, d, (n, dy), lambda i, j: app("y", i, j))
            v.prove_eq("dimensions", tuple(dims), (dx, dy), p)


@contract("C17", f"{U}:save_sample", "arrays of any number of dimensions up to 3, not both two-dimensional", "AssertionError and nothing is written")
def shapes(v):
    loader.reset()
    mod = loader.load(U)
    n, _, dx, dy = data()
    k = posint("k")
    shp = {0: (), 1: (n,), 2: (n, dx), 3: (n, dx, k)}
    for a in range(4):
        for b in range(4):
            if a == b == 2:
                continue
            x, y = array("x", *shp[a]), array("y", *shp[b])
            for p in v.explore(lambda: mod.save_sample(FILE, x, y)):
                v.raises(f"rejected {a} {b}", p)
                v.check("nothing is written", not p.ghost.get("written"), "", p)


@contract("C17", f"{U}:read_sample, {U}:read_sample_dims", "any file whose columns are blocks of X columns and of Y columns in any order, with or without a column that is neither",
          "rejected iff there is such a column; X has exactly the X columns in the file's order, Y the Y columns; the dimensions are their numbers; the file is only read")
def foreign(v):
    loader.reset()
    mod = loader.load(U)
    n, dx, dy, dz = nat("n"), nat("dx"), nat("dy"), nat("dz")
    xs = ("seg", dx.t, lambda k: "X" + seq.placeholder(k))
    ys = ("seg", dy.t, lambda k: "Y" + seq.placeholder(k))
    x2 = ("seg", dz.t, lambda k: "X" + seq.placeholder(add(k, dx.t)))
    layouts = [[xs, ys], [ys, xs], [xs, ys, x2], [xs], [ys]]
    for lay in layouts:
        for alien in (None, "Z0", "index", "Unnamed: 0"):
            for at in range(len(lay) + 1 if alien else 1):
                cols = list(lay)
                if alien:
                    cols.insert(at, ("item", alien))
                f = pandas_.Frame(seq.VList.from_segs(cols), n.t, lambda i, j: app("cell", i, j))

                def run():
                    pandas_.files()[pandas_.key_of(FILE)] = f
                    d = mod.read_sample_dims(FILE)
                    return d, mod.read_sample(FILE)
                for p in v.explore(run):
                    v.check("the file is only read", not p.ghost.get("written"), "", p)
                    if alien:
                        v.raises(f"column {alien} rejected", p)
                        continue
                    if not v.returns("accepted", p):
                        continue
                    d, (a, b) = p.result
                    nx = add(ZERO, *[s[1] for s in cols if s[2](ZERO).startswith("X")])
                    ny = add(ZERO, *[s[1] for s in cols if s[2](ZERO).startswith("Y")])
                    v.prove_eq("dimensions", tuple(d), (nx, ny), p)
                    for w, r, size in (("X", a, nx), ("Y", b, ny)):
                        def want(i, j):
                            off, mine, out = ZERO, ZERO, None
                            parts = []
                            for s in cols:
                                if s[2](ZERO).startswith(w):
                                    parts.append((add(mine, s[1]), app("cell", i, add(sub(j, mine), off))))
                                    mine = add(mine, s[1])
                                off = add(off, s[1])
                            if not parts:
                                return ZERO
                            out = parts[-1][1]
                            for e, t in reversed(parts[:-1]):
                                out = ite(lt(j, e), t, out)
                            return out
                        prove_array(v, w, p, r, (n, size), want)
