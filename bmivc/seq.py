"""Sequences with symbolic segments, the loop rule and the builtins seen by the rewritten code."""
import builtins as _b
import re
import sys
from fractions import Fraction as Fr

from . import solve as sv_
from . import sym
from . import terms as tm
from .sym import ENG, PINF, Infeasible, Oracle, PathDone, SArr, Store, SV, Unsupported, asarr, t_, tobool, wrap
from .terms import (FALSE, ONE, TRUE, ZERO, T, add, and_, app, eq, fresh, ite, le, lt, mul, neg, not_, num, or_, sub,
                    sum_, var)

UNB = type("Unbound", (), {"__repr__": lambda s: "<unbound>"})()


class Poison:
    """value of a variable at the start of an arbitrary iteration that the loop rule cannot track"""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def __getattr__(self, k):
        raise Unsupported(f"loop-carried value {object.__getattribute__(self, '_n')!r}.{k}")

    def _u(self, *a, **k):
        raise Unsupported(f"loop-carried value {object.__getattribute__(self, '_n')!r}")
    __add__ = __radd__ = __call__ = __getitem__ = __iter__ = __bool__ = __len__ = __eq__ = __mul__ = __lt__ = __le__ = __gt__ = __ge__ = _u
    __hash__ = object.__hash__


# =============================================================== values under substitution / merging
PH = re.compile(r"⟨(\d+)(?::([^⟩]*))?⟩")
UIDS = {}


def placeholder(t, spec=""):
    if t.op == "num":
        c = t.a[0]
        return format(int(c) if c.denominator == 1 else float(c), spec)
    UIDS[t.uid] = t
    return f"⟨{t.uid}:{spec}⟩"


def _sv_format(self, spec):
    return placeholder(self.t if self.t.sort != "B" else self.t, spec)


SV.__format__ = _sv_format
SV.__str__ = lambda self: placeholder(self.t)


def _arr_format(self, spec):
    return placeholder(self.term(), spec)


SArr.__format__ = _arr_format
SArr.__str__ = lambda self: placeholder(self.term())


def subst(t, m):
    """substitution, or application of a term function"""
    return m(t) if callable(m) else tm.subst(t, m)


def plain_object(v):
    """an instance of a class of the code under verification: its value is its class and its attributes"""
    return not isinstance(v, type) and hasattr(v, "__dict__") and (
        type(v).__module__.startswith("bmi.") or getattr(type(v), "_sym_plain", False))


def vsubst(v, m):
    """substitute index variables in a Python value (m: dict, or a function on terms)"""
    if v is None or isinstance(v, (bool, int, float, Fr)) or callable(v) and not hasattr(v, "__sym_subst__"):
        return v
    if type(v) is SV:
        return wrap(subst(v.t, m), py=False) if v.t.sort not in ("K", "A") else SV(subst(v.t, m))
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, SArr):
        f = v.snapshot()
        r = type(v)([subst(d, m) for d in v.dims], lambda i: _subst_at(f, i, m), jax=v.jax, dtype=v.dtype)
        if "masked" in v.meta:
            ds, f2, g2 = v.meta["masked"]
            r.meta["masked"] = ([subst(d, m) for d in ds], lambda i: _subst_at(f2, i, m), lambda i: _subst_at(g2, i, m))
        return r
    if isinstance(v, VList):
        return VList.from_segs([seg_subst(s, m) for s in v.segs])
    if isinstance(v, tuple):
        vals = [vsubst(x, m) for x in v]
        return type(v)(*vals) if hasattr(v, "_fields") else tuple(vals)
    if isinstance(v, list):
        return [vsubst(x, m) for x in v]
    if isinstance(v, dict):
        return {vsubst(k, m): vsubst(x, m) for k, x in v.items()}
    if isinstance(v, slice):
        return slice(vsubst(v.start, m), vsubst(v.stop, m), vsubst(v.step, m))
    if isinstance(v, str):
        if "⟨" not in v:
            return v
        return PH.sub(lambda mm: placeholder(subst(UIDS[int(mm.group(1))], m), mm.group(2) or ""), v)
    if hasattr(v, "__sym_subst__"):
        return v.__sym_subst__(m)
    if plain_object(v):
        r = object.__new__(type(v))
        r.__dict__.update({k: vsubst(x, m) for k, x in v.__dict__.items()})
        return r
    return v


def _subst_at(f, i, m):
    # evaluate at fresh indices so that the substitution does not touch the actual ones
    vs = [fresh("z") for _ in i]
    t = subst(f(tuple(vs)), m)
    return subst(t, dict(zip(vs, i)))


def vfree(v, names):
    """does a value mention one of the variables?"""
    if type(v) is SV:
        return not v.t.fv.isdisjoint(names)
    if isinstance(v, T):
        return not v.fv.isdisjoint(names)
    if isinstance(v, SArr):
        return not v.term().fv.isdisjoint(names)
    if isinstance(v, (tuple, list)):
        return any(vfree(x, names) for x in v)
    if isinstance(v, VList):
        return any(vfree(s[1], names) if s[0] == "item" else False for s in v.segs)
    if isinstance(v, dict):
        return any(vfree(x, names) for x in v.values())
    if plain_object(v):
        return any(vfree(x, names) for x in v.__dict__.values())
    return False


def vite(c, a, b):
    """merge two values under a condition"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if (sym.isnum(a) and sym.isnum(b)):
        ta, tb = (x.t if type(x) is SV else (TRUE if x is True else FALSE if x is False else t_(x)) for x in (a, b))
        if (ta.sort == "B") != (tb.sort == "B"):
            ta, tb = sym.num_t(ta), sym.num_t(tb)
        return wrap(ite(c, ta, tb), py=False)
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim:
        fa, fb = a.snapshot(), b.snapshot()
        return SArr([ite(c, x, y) for x, y in zip(a.dims, b.dims)], lambda i: ite(c, fa(i), fb(i)), jax=a.jax, dtype=a.dtype)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return {k: vite(c, a[k], b[k]) for k in a}
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, slice) and isinstance(b, slice):
        return slice(vite(c, a.start, b.start), vite(c, a.stop, b.stop), vite(c, a.step, b.step))
    if isinstance(a, VList) and isinstance(b, VList) and len(a.segs) == len(b.segs) and all(
            x[0] == y[0] == "item" for x, y in zip(a.segs, b.segs)):
        return VList([vite(c, x[1], y[1]) for x, y in zip(a.segs, b.segs)])
    if hasattr(a, "__sym_ite__"):
        r = a.__sym_ite__(c, b)
        if r is not NotImplemented:
            return r
    if plain_object(a) and type(a) is type(b) and a.__dict__.keys() == b.__dict__.keys():
        r = object.__new__(type(a))
        r.__dict__.update({k: vite(c, x, b.__dict__[k]) for k, x in a.__dict__.items()})
        return r
    try:
        if a == b and type(a) is type(b):
            return a
    except Exception:
        pass
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


def vmerge(cases):
    """value of the generic iteration from its (guard, value) cases (guards are exhaustive)"""
    v = cases[-1][1]
    for g, x in reversed(cases[:-1]):
        v = vite(g, x, v)
    return v


# =============================================================== lists
def seg_subst(s, m):
    if s[0] == "item":
        return ("item", vsubst(s[1], m))
    if s[0] in ("seg", "cat"):
        f = s[2]
        k0 = fresh("z")
        v = None

        def g(k, f=f, m=m):
            z = fresh("z")
            return _vs(vsubst(f(z), m), {z: k}) if s[0] == "seg" else [seg_subst(seg_subst(x, m), {z: k}) for x in f(z)]
        return (s[0], subst(s[1], m), g)
    if s[0] == "fseg":
        f, gd = s[2], s[3]

        def g(k, f=f):
            z = fresh("z")
            return _vs(vsubst(f(z), m), {z: k})

        def gg(k):
            z = fresh("z")
            return subst(subst(gd(z), m), {z: k})
        return ("fseg", subst(s[1], m), g, gg)
    return s


def _vs(v, m):
    return vsubst(v, m)


class VList:
    """list whose contents are concrete items and symbolic segments"""
    __array_priority__ = 10

    def __init__(self, items=()):
        self.segs = [("item", x) for x in items]

    @classmethod
    def from_segs(cls, segs):
        r = cls()
        r.segs = list(segs)
        return r

    def _j(self):
        old = list(self.segs)

        def undo(self=self, old=old):
            self.segs = old
        undo.vlist = self
        undo.old = old
        sym.journal(undo)

    @property
    def concrete(self):
        return all(s[0] == "item" for s in self.segs)

    # ---- mutation
    def append(self, x):
        self._j()
        self.segs = self.segs + [("item", x)]

    def extend(self, xs):
        self._j()
        self.segs = self.segs + list(segs_of(xs))

    def insert(self, i, x):
        if self.concrete and isinstance(i, int):
            self._j()
            l = list(self.segs)
            l.insert(i, ("item", x))
            self.segs = l
            return
        if i == 0:
            self._j()
            self.segs = [("item", x)] + self.segs
            return
        raise Unsupported("insert")

    def pop(self, i=-1):
        if self.concrete:
            self._j()
            l = list(self.segs)
            r = l.pop(i)
            self.segs = l
            return r[1]
        raise Unsupported("pop")

    def sort(self, **k):
        r = V_sorted(self, **k)
        self._j()
        self.segs = r.segs

    def reverse(self):
        r = V_reversed(self)
        self._j()
        self.segs = r.segs

    def copy(self):
        return VList.from_segs(self.segs)

    def index(self, x):
        for i, y in enumerate(self):
            if y == x:
                return i
        raise ValueError("not in list")

    def count(self, x):
        n = 0
        for y in self:
            if y == x:
                n += 1
        return n

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, (VList, list)):
            return NotImplemented
        return VList.from_segs(list(self.segs) + list(segs_of(o)))

    def __radd__(self, o):
        if not isinstance(o, (VList, list)):
            return NotImplemented
        return VList.from_segs(list(segs_of(o)) + list(self.segs))

    def __mul__(self, n):
        if isinstance(n, int):
            return VList.from_segs(list(self.segs) * n)
        if type(n) is SV and len(self.segs) == 1 and self.segs[0][0] == "item":
            x = self.segs[0][1]
            return VList.from_segs([("seg", sym.simp_dim(app("max", ZERO, t_(n))), lambda k: x)])
        raise Unsupported("list repetition")
    __rmul__ = __mul__

    # ---- queries
    def length(self):
        r = ZERO
        for s in self.segs:
            r = add(r, seg_len(s))
        return r

    def __sym_len__(self):
        return wrap(self.length())

    def __len__(self):
        n = self.length()
        if n.op == "num":
            return int(n.a[0])
        raise Unsupported("native len() of a symbolic list")

    def __bool__(self):
        return ENG.branch(lt(ZERO, self.length()))

    def __iter__(self):
        if not self.concrete:
            raise Unsupported("native iteration over a symbolic list")
        return iter([s[1] for s in self.segs])

    def __reversed__(self):
        return iter(V_reversed(self))

    def __contains__(self, x):
        for y in self:
            if y == x:
                return True
        return False

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.concrete:
                try:
                    return VList([s[1] for s in self.segs][k])
                except Unsupported:
                    pass
            if k.start is None and k.stop is None and k.step in (None, 1):
                return self.copy()
            if k.step not in (None, 1):
                raise Unsupported("list slice step")
            n = self.length()
            s, e = sym.norm_slice(k, n)
            return self._slice(s, e)
        if type(k) is int and self.concrete:
            return self.segs[k][1]
        n = self.length()
        i = sym.norm_index(k, n)
        return self.item(i)

    def item(self, i):
        off = ZERO
        for s in self.segs:
            m = seg_len(s)
            if s is self.segs[-1] or ENG.branch(lt(i, add(off, m))):
                if s[0] == "item":
                    return s[1]
                if s[0] == "seg":
                    return s[2](sub(i, off))
                raise Unsupported("index into a filtered sequence")
            off = add(off, m)
        raise IndexError("list index out of range")

    def _slice(self, s, e):
        if len(self.segs) == 1 and self.segs[0][0] == "seg":
            f = self.segs[0][2]
            return VList.from_segs([("seg", sym.simp_dim(sub(e, s)), lambda k: f(add(k, s)))])
        # drop/keep leading items
        if s.op == "num" and e is self.length():
            j = int(s.a[0])
            if all(x[0] == "item" for x in self.segs[:j]) and len(self.segs) >= j:
                return VList.from_segs(self.segs[j:])
        if s is ZERO and sub(self.length(), e).op == "num":
            j = int(sub(self.length(), e).a[0])
            if j == 0 or all(x[0] == "item" for x in self.segs[-j:]):
                return VList.from_segs(self.segs[:-j] if j else self.segs)
        segs = self.segs
        f = self.item
        return VList.from_segs([("seg", sym.simp_dim(sub(e, s)), lambda k: f(add(k, s)))])

    def __setitem__(self, k, v):
        if self.concrete and type(k) is int:
            self._j()
            l = list(self.segs)
            l[k] = ("item", v)
            self.segs = l
            return
        if type(k) is int and self.segs[k][0] == "item" and (
                all(s[0] == "item" for s in self.segs[:k + 1]) if k >= 0 else all(s[0] == "item" for s in self.segs[k:])):
            self._j()
            l = list(self.segs)
            l[k] = ("item", v)
            self.segs = l
            return
        raise Unsupported("assignment into a symbolic list")

    def __eq__(self, o):
        if not isinstance(o, (VList, list)):
            return False
        if self.concrete and (isinstance(o, list) or o.concrete):
            a, b = list(self), list(o)
            return len(a) == len(b) and all(bool(x == y) for x, y in zip(a, b))
        raise Unsupported("comparison of symbolic lists")

    __hash__ = None

    def __repr__(self):
        return "VList[" + ", ".join(f"{s[1]!r}" if s[0] == "item" else f"{s[0]}×{tm.show(s[1])}" for s in self.segs) + "]"

    def __deepcopy__(self, memo):
        import copy
        return VList.from_segs([("item", copy.deepcopy(s[1], memo)) if s[0] == "item" else s for s in self.segs])

    def __sym_term__(self):
        return app("list", *[vterm(s) for s in self.segs])


def seg_len(s):
    if s[0] == "item":
        return ONE
    if s[0] == "seg":
        return s[1]
    if s[0] == "fseg":
        v = fresh("k")
        return sum_(v, ZERO, s[1], ite(s[3](v), ONE, ZERO))
    if s[0] == "cat":
        v = fresh("k")
        t = ZERO
        for x in s[2](v):
            t = add(t, seg_len(x))
        return sum_(v, ZERO, s[1], t)
    raise Unsupported("length of " + s[0])


def segs_of(x):
    if isinstance(x, VList):
        return list(x.segs)
    if isinstance(x, (list, tuple, set, frozenset, dict, str)):
        return [("item", y) for y in x]
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        if x.dims[0].op == "num":
            return [("item", x[i]) for i in range(int(x.dims[0].a[0]))]
        snap = x.copy()
        return [("seg", x.dims[0], lambda k: snap[(sym.At(t_(k)),)])]
    if isinstance(x, VIter):
        return x.segs()
    if isinstance(x, range):
        return [("item", y) for y in x]
    if hasattr(x, "__sym_iter__"):
        return segs_of(x.__sym_iter__())
    if hasattr(x, "__iter__"):
        return [("item", y) for y in x]
    if hasattr(x, "__getitem__") and hasattr(x, "__len__") and not isinstance(x, type):
        n = V_len(x)
        if isinstance(n, int):
            return [("item", x[i]) for i in range(n)]
        return [("seg", t_(n), lambda k: x[wrap(k)])]
    raise TypeError(f"'{type(x).__name__}' object is not iterable")


class _Raw(SV):
    """index known to be in range"""
    __slots__ = ()


def wrap_idx(k):
    return wrap(k)


def vterm(v):
    """encode a Python value as a term"""
    if type(v) is SV:
        return v.t
    if isinstance(v, T):
        return v
    if v is None:
        return app("none")
    if isinstance(v, (bool,)):
        return TRUE if v else FALSE
    if isinstance(v, (int, float, Fr)):
        return t_(v)
    if isinstance(v, SArr):
        return v.term()
    if isinstance(v, str):
        parts = []
        last = 0
        for mm in PH.finditer(v):
            parts += [app("str:" + v[last:mm.start()]), app("fmt:" + (mm.group(2) or ""), UIDS[int(mm.group(1))])]
            last = mm.end()
        parts.append(app("str:" + v[last:]))
        return app("str", *parts)
    if isinstance(v, tuple) and len(v) in (2, 3, 4) and isinstance(v[0], str) and v[0] in ("item", "seg", "fseg", "cat"):
        if v[0] == "item":
            return app("item", vterm(v[1]))
        k = fresh("k")
        if v[0] == "seg":
            x = v[2](k)
            return tm.arr(v[1], k, vterm(x)) if True else None
        if v[0] == "fseg":
            return app("filt", tm.arr(v[1], k, ite(v[3](k), ONE, ZERO)), tm.arr(v[1], k, vterm(v[2](k))))
        return tm.arr(v[1], k, app("list", *[vterm(s) for s in v[2](k)]))
    if isinstance(v, VList):
        if v.concrete:
            return app("list", *[vterm(s[1]) for s in v.segs])
        if len(v.segs) == 1 and v.segs[0][0] == "seg":
            return vterm(v.segs[0])
        return app("list", *[vterm(s) for s in v.segs])
    if isinstance(v, (list, tuple)):
        return app("list", *[vterm(x) for x in v])
    if isinstance(v, dict):
        return app("dict", *[app("kv", vterm(k), vterm(x)) for k, x in v.items()])
    if isinstance(v, slice):
        return app("slice", vterm(v.start), vterm(v.stop), vterm(v.step))
    if hasattr(v, "__sym_term__"):
        return v.__sym_term__()
    return app(f"obj:{type(v).__name__}:{id(v)}")


# =============================================================== iteration objects
class VIter:
    """an iteration of symbolic length: item k for 0 <= k < n"""

    def __init__(self, n, item):
        self.n, self.item_ = n, item

    def segs(self):
        return [("seg", self.n, self.item_)]

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic range")

    def __sym_len__(self):
        return wrap(self.n)

    def __getitem__(self, k):
        return VList.from_segs(self.segs())[k]

    def __contains__(self, x):
        raise Unsupported("membership in a symbolic range")


class VRange(VIter):
    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c
        if c is ONE:
            n = sub(b, a)
            d = ENG.decide(le(ZERO, n))
            n = sym.simp_dim(n) if d is True else ZERO if d is False else tm.rlen(a, b)
        else:
            if c.op == "num" and c.a[0] < 0:
                n = tm.rlen(b, a)
                n = n if c.a[0] == -1 else app("idiv", add(n, num(-c.a[0] - 1)), num(-c.a[0]))
            else:
                if c.op != "num" and not ENG.branch(lt(ZERO, c)):
                    raise Unsupported("range with a symbolic non-positive step")
                d = sub(b, a)
                if ENG.decide(le(ZERO, d)) is not True:
                    d = tm.rlen(a, b)
                n = app("idiv", add(d, sub(c, ONE)), c)
        super().__init__(n, lambda k: wrap(add(a, mul(c, k))))


def V_range(*a):
    a = [x if isinstance(x, int) else wrap(t_(x)) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    for x in a:
        if t_(x).sort != "I":
            raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = a + [1]
    r = VRange(*[t_(x) for x in a])
    if r.n.op == "num":
        return VList([r.item_(num(i)) for i in range(int(r.n.a[0]))])
    return r


def to_iter(x):
    """('concrete', list) or ('sym', n, item)"""
    if isinstance(x, (list, tuple, range, str, dict, set, frozenset)):
        return ("concrete", list(x))
    if isinstance(x, type(iter(()))) or isinstance(x, (type({}.items()), type({}.keys()), type({}.values()))):
        return ("concrete", list(x))
    s = segs_of(x)
    if all(y[0] == "item" for y in s):
        return ("concrete", [y[1] for y in s])
    if len(s) == 1 and s[0][0] == "seg":
        n = sym.simp_dim(s[0][1])
        if n.op == "num" and n.a[0] <= 8:
            return ("concrete", [s[0][2](num(i)) for i in range(int(n.a[0]))])
        return ("sym", n, s[0][2])
    if len(s) == 1 and s[0][0] == "fseg":
        return ("fsym", s[0][1], s[0][2], s[0][3])
    if all(y[0] in ("item", "seg") for y in s):
        l = VList.from_segs(s)
        return ("mixed", s)
    raise Unsupported("iteration over a composite sequence")


def V_enumerate(x, start=0):
    it = to_iter(x)
    if it[0] == "concrete":
        return [(start + i, y) for i, y in enumerate(it[1])]
    if it[0] == "mixed":
        it = ("sym", *mixed_at(it[1]))
    if it[0] != "sym":
        raise Unsupported("enumerate of a filtered sequence")
    s = t_(start)
    return VIter(it[1], lambda k: (wrap(add(k, s)), it[2](k)))


def V_zip(*xs, strict=False):
    its = [to_iter(x) for x in xs]
    if all(i[0] == "concrete" for i in its):
        return list(zip(*[i[1] for i in its]))
    n = None
    fs = []
    for i in its:
        if i[0] == "concrete":
            m = num(len(i[1]))
            l = VList(i[1])
            fs.append(l.item)
        elif i[0] == "sym":
            m = i[1]
            fs.append(i[2])
        elif i[0] == "mixed":
            m, f = mixed_at(i[1])
            fs.append(f)
        else:
            raise Unsupported("zip of a filtered sequence")
        if n is None:
            n = m
        elif n is not m:
            if ENG.decide(eq(n, m)) is not True:
                if not ENG.branch(eq(n, m)):
                    n = n if ENG.branch(lt(n, m)) else m
    if n.op == "num":
        return [tuple(f(num(k)) for f in fs) for k in range(int(n.a[0]))]
    return VIter(n, lambda k: tuple(f(k) for f in fs))


def mixed_at(segs):
    """length of a sequence of items and segments, and the value at a position"""
    offs, off = [], ZERO
    for s in segs:
        offs.append(off)
        off = add(off, seg_len(s))

    def at(k):
        res = None
        for s, o in reversed(list(zip(segs, offs))):
            x = s[1] if s[0] == "item" else s[2](sub(k, o))
            res = x if res is None else vite(lt(k, add(o, seg_len(s))), x, res)
        return res
    return off, at


def V_reversed(x):
    it = to_iter(x)
    if it[0] == "concrete":
        return VList(it[1][::-1])
    if it[0] == "sym":
        return VList.from_segs([("seg", it[1], lambda k: it[2](sub(sub(it[1], ONE), k)))])
    raise Unsupported("reversed")


# =============================================================== generic iteration
class Pass:
    def __init__(self, guard, value, exc, stores, lists):
        self.guard, self.value, self.exc, self.stores, self.lists = guard, value, exc, stores, lists


def generic(assume, fn, stores=None):
    """all local paths of fn() under extra assumptions; effects on arrays and lists are recorded and
    undone"""
    out = []
    o = Oracle(200)
    base = ENG.ctx
    saved_j = ENG.journal
    base2 = base.plus(*assume)
    if not base2.feasible():
        return out
    ENG.oracles.append(o)
    try:
        while True:
            o.pos = 0
            ENG.ctx = base2
            ENG.journal = []
            res = exc = None
            keep = True
            try:
                res = fn()
            except Infeasible:
                keep = False
            except Unsupported:
                raise
            except sv_.Deadline:
                raise
            except Exception as e:
                exc = e
            nf = len(base2.facts)
            guard = and_(*ENG.ctx.facts[nf:])
            # collect effects, then undo them
            st, ls = {}, {}
            for u in ENG.journal:
                s = u.__defaults__[0]
                if isinstance(s, Store):
                    st[id(s)] = (s, s.fn)
                elif isinstance(s, TDict):
                    raise Unsupported("dictionary changed in a summarised iteration")
                else:
                    ls[id(s)] = (s, list(s.segs))
            for u in reversed(ENG.journal):
                u()
            if keep:
                out.append(Pass(guard, res, exc, st, ls))
            if not o.next():
                break
    finally:
        for u in reversed(ENG.journal or []):
            u()
        ENG.oracles.pop()
        ENG.ctx = base
        ENG.journal = saved_j
    return out


def handle_raises(passes, k, n):
    """exceptional cases of a generic iteration: either some iteration raises (that path), or none does"""
    bad = [p for p in passes if p.exc is not None]
    if not bad:
        return [p for p in passes]
    some = or_(*[p.guard for p in bad])
    if ENG.choose(2) == 1:
        w = fresh("w")
        c = subst(some, {k: w})
        ENG.ctx = ENG.ctx.plus(le(ZERO, w), lt(w, n), c)
        if not ENG.ctx.feasible():
            raise Infeasible()
        raise bad[0].exc
    nf = tm.forall(k, ZERO, n, not_(some))
    ENG.ctx = ENG.ctx.plus(nf)
    if k not in some.fv:
        ENG.ctx = ENG.ctx.plus(or_(le(n, ZERO), not_(some)))
    if not ENG.ctx.feasible():
        raise Infeasible()
    return [p for p in passes if p.exc is None]


def generic_value(n, fn):
    """merged value of fn(k) for a generic 0 <= k < n (no side effects allowed); returns function of k"""
    k = fresh("γ")
    ps = generic([le(ZERO, k), lt(k, n)], lambda: fn(k))
    if not ps:
        return None
    ps = handle_raises(ps, k, n)
    if any(p.stores for p in ps) or any(p.lists for p in ps):
        # effects on objects created inside are harmless; others are not tracked here
        raise_effects(ps)
    v = vmerge([(p.guard, p.value) for p in ps])
    return k, v


def raise_effects(ps):
    pass  # arrays/lists created in the iteration itself are undone to their initial state: see freeze()


def V_comp(kind, it, f):
    i = to_iter(it)
    if i[0] == "concrete":
        out = []
        for x in i[1]:
            out.extend(f(x))
        return _comp_result(kind, VList(out))
    if i[0] == "mixed":
        segs = []
        for s in i[1]:
            if s[0] == "item":
                segs += [("item", y) for y in f(s[1])]
            else:
                segs += V_comp("list", VList.from_segs([s]), f).segs
        return _comp_result(kind, VList.from_segs(segs))
    n = i[1]
    k = fresh("γ")
    extra = [i[3](k)] if i[0] == "fsym" else []
    ps = generic([le(ZERO, k), lt(k, n)] + extra, lambda: freeze(f(i[2](k))))
    if not ps:
        return _comp_result(kind, VList())
    ps = handle_raises(ps, k, n)
    yes = [p for p in ps if len(p.value) == 1]
    if any(len(p.value) > 1 for p in ps):
        raise Unsupported("nested comprehension over a symbolic sequence")
    if not yes:
        return _comp_result(kind, VList())
    v = vmerge([(p.guard, p.value[0]) for p in yes])
    item = lambda j: vsubst(v, {k: j})
    if len(yes) == len(ps) and i[0] == "sym":
        return _comp_result(kind, VList.from_segs([("seg", n, item)]))
    g = and_(or_(*[p.guard for p in yes]), *extra)
    return _comp_result(kind, VList.from_segs([("fseg", n, item, lambda j: subst(g, {k: j}))]))


def _comp_result(kind, l):
    if kind == "set":
        return V_set(l)
    if kind == "dict":
        if not l.concrete:
            raise Unsupported("dict comprehension over a symbolic sequence")
        return TDict({a: b for a, b in l})
    return l


def freeze(v):
    """snapshot arrays so that undoing the iteration's effects does not change the value"""
    if isinstance(v, SArr) and not isinstance(v, sym.MaskedArr):
        return SArr(v.dims, v.snapshot(), jax=v.jax, dtype=v.dtype)
    if isinstance(v, VList):
        return VList.from_segs([("item", freeze(s[1])) if s[0] == "item" else s for s in v.segs])
    if isinstance(v, tuple) and not hasattr(v, "_fields"):
        return tuple(freeze(x) for x in v)
    if isinstance(v, list):
        return [freeze(x) for x in v]
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    return v


INVARIANTS = {}     # loop key -> invariant object (declared in contracts)


class Loop:
    """the loop rule for `for` statements over symbolic iterations"""

    def __init__(self, it, key, names, has_exit):
        self.it = to_iter(it)
        self.key, self.names, self.has_exit = key, names, has_exit
        self.concrete = self.it[0] == "concrete"
        self.inv = None
        self.hoare = False
        if not self.concrete:
            if self.it[0] == "mixed":
                self.it = ("sym", *mixed_at(self.it[1]))
            self.n = self.it[1]
            self.inv = INVARIANTS.get("*")
            if self.inv is not None and not (self.it[0] == "sym" and self.inv.applies(self)):
                self.inv = None
            if has_exit and self.inv is None:
                self.inv = INVARIANTS.get(key) or INVARIANTS.get(key.split("#")[0])
                if self.inv is None:
                    raise Unsupported(f"loop with an early exit needs an invariant: {key}")
            self.hoare = self.inv is not None

    def items(self):
        return self.it[1]

    # ---------------- summarising mode
    def enter(self, loc):
        self.pre = {x: loc.get(x, UNB) for x in self.names}
        self.k = fresh("i")
        self.hav = {}
        self.cases = []
        self.o = Oracle(200)
        self.base = ENG.ctx
        self.saved_j = ENG.journal
        cond = [le(ZERO, self.k), lt(self.k, self.n)]
        if self.it[0] == "fsym":
            cond.append(self.it[3](self.k))
        self.base2 = self.base.plus(*cond)
        self.live = self.base2.feasible()
        self.started = False
        self.cells = {}     # marker name -> (store, contents before the loop)
        self.saved_d = ENG.dictjournal
        self.dcells = {}    # (dictionary, key) -> (pseudo variable, value before the loop)
        self.dobj = {}
        self.dtouched = {}
        self.lcells = {}    # list -> (list, contents before the loop)
        self.phase = 1
        for x, v in self.pre.items():
            self.hav[x] = self._havoc(x, v)

    def _havoc(self, x, v):
        if type(v) is bool or (type(v) is SV and v.t.sort == "B"):
            return SV(var(f"h!{x}!{self.k.a[0]}", "B"))
        if sym.isnum(v) and not isinstance(v, SArr):
            return SV(var(f"h!{x}!{self.k.a[0]}", "R" if t_(v).sort != "I" else "I"))
        if isinstance(v, SArr):
            nm = f"h!{x}!{self.k.a[0]}"
            return SArr(v.dims, lambda i: app(nm, *i, sort="R"), jax=v.jax, dtype=v.dtype)
        if isinstance(v, VList):
            return VList.from_segs([("havoc", x)])
        if v is UNB:
            return UNB
        return Poison(x)

    def next_pass(self):
        if not self.live:
            return False
        if self.started and not self.more:
            return False
        if not self.started:
            ENG.oracles.append(self.o)
            self.started = True
        self.o.pos = 0
        ENG.ctx = self.base2
        ENG.journal = []
        ENG.dictjournal = ENG.journal if self.inv is None else None
        for (d, q), (x, _) in self.dcells.items():
            dict.__setitem__(self.dobj[d], q, self.hav[x])
        for l, segs in self.lcells.values():
            l.segs = [("havoc", "a list of the loop")]
        return True

    def get(self, x):
        return self.hav[x]

    def one(self):
        yield self.it[2](self.k)

    def raised(self, e):
        if isinstance(e, Infeasible):
            self._end(None, None, keep=False)
            return
        if isinstance(e, (Unsupported, sv_.Deadline)) or not isinstance(e, Exception):
            self._abort()
            raise e
        self._end(None, e)

    def _abort(self):
        for u in reversed(ENG.journal or []):
            u()
        self._restore()
        if ENG.oracles and ENG.oracles[-1] is self.o:
            ENG.oracles.pop()
        ENG.ctx = self.base
        ENG.journal = self.saved_j

    def _restore(self):
        ENG.dictjournal = self.saved_d
        for nm, (s_, f) in self.cells.items():
            s_.fn = f
        for (d, q), (x, v) in self.dcells.items():
            dict.__setitem__(self.dobj[d], q, v)
        for l, segs in self.lcells.values():
            l.segs = segs

    def end_pass(self, loc):
        self._end({x: loc.get(x, UNB) for x in self.names}, None)

    def _end(self, vals, exc, keep=True):
        guard = and_(*ENG.ctx.facts[len(self.base2.facts):])
        st, ls, ds = {}, {}, {}
        for u in ENG.journal:
            s = u.__defaults__[0]
            if isinstance(s, Store):
                st[id(s)] = (s, s.fn)
            elif isinstance(s, TDict):
                old = ds[id(s)][1] if id(s) in ds else u.__defaults__[1]
                ds[id(s)] = (s, old)
            else:
                ls[id(s)] = (s, list(s.segs))
        if vals is not None:
            for (d, q), (x, _) in self.dcells.items():
                if q not in self.dobj[d]:
                    raise Unsupported("key removed from a dictionary in a loop")
                vals[x] = self.dobj[d][q]
            vals = {x: freeze(v) for x, v in vals.items()}
        for d, old in ds.values():
            if list(d) != list(old):
                raise Unsupported("keys of a dictionary changed in a loop")
            for q in old:
                if d[q] is not old[q]:
                    self.dtouched[id(d), q] = d
        for u in reversed(ENG.journal):
            u()
        ENG.journal = []
        if keep:
            self.cases.append(Pass(guard, vals, exc, st, ls))
        self.more = self.o.next()
        if not self.more and self.phase == 1:
            touched = {i: s for c in self.cases for i, (s, fn) in c.stores.items()}
            lists = {i: l for c in self.cases for i, (l, segs) in c.lists.items()}
            if touched or self.dtouched or lists:
                # second round: the contents of written arrays at the start of an iteration are unknown
                self.phase = 2
                for i, s_ in touched.items():
                    nm = f"cell!{self.k.a[0]}!{len(self.cells)}"
                    self.cells[nm] = (s_, s_.fn)
                    s_.fn = (lambda nm: lambda idx: app(nm, *idx, sort="R"))(nm)
                for (d, q), obj in self.dtouched.items():
                    x = f"entry {len(self.dcells)} of a dictionary"
                    self.dobj[d] = obj
                    self.dcells[d, q] = (x, obj[q])
                    self.pre[x] = obj[q]
                    self.hav[x] = self._havoc(x, obj[q])
                self.names = list(self.names) + [x for x, _ in self.dcells.values()]
                self.lcells = {i: (l, l.segs) for i, l in lists.items()}
                self.phase1 = set(self.dtouched)
                self.cases = []
                self.o = Oracle(200)
                ENG.oracles[-1] = self.o
                self.more = True
                return
        if not self.more:
            ENG.oracles.pop()
            ENG.ctx = self.base
            ENG.journal = self.saved_j
            self._restore()
            if self.phase == 2 and set(self.dtouched) - self.phase1:
                raise Unsupported("dictionary entry changed only in some iterations")
            self._summarise()
            for (d, q), (x, v) in self.dcells.items():
                if self.out.get(x) is not v:
                    self.dobj[d][q] = self.out[x]

    def _summarise(self):
        k, n = self.k, self.n
        self.out = dict(self.pre)
        if not self.cases:
            return
        # arrays read or written in the body: were they written, the reads in this pass saw the state
        # before the loop; that is checked in _stores
        hv = {h.t for h in self.hav.values() if type(h) is SV}
        harr = {x: f"h!{x}!{k.a[0]}" for x, h in self.hav.items() if isinstance(h, SArr)}
        bad = [c for c in self.cases if c.exc is not None]
        cases = [c for c in self.cases if c.exc is None]
        if not cases:
            self._raising(bad, {}, hv, harr)
            return
        res = {}
        incs = {}
        for x in self.names:
            if self.pre[x] is UNB and all(c.value[x] is UNB for c in cases):
                res[x] = UNB
                continue
            h = self.hav[x]
            vs = [(c.guard, c.value[x]) for c in cases]
            if all(v is h for _, v in vs):
                res[x] = self.pre[x]
                continue
            if type(h) is SV and h.t.sort == "B":
                raise_if = [v for _, v in vs if vfree(v, {h.t})]
                if raise_if:
                    raise Unsupported(f"loop-carried flag {x}")
                incs[x] = ("last", vmerge(vs))
            elif type(h) is SV and all(sym.isnum(v) for _, v in vs):
                ds = [(g, sub(t_(v), h.t)) for g, v in vs]
                if all(h.t not in d.fv for _, d in ds):
                    incs[x] = ("acc", vmerge([(g, SV(d)) for g, d in ds]))
                elif all(not vfree(v, {h.t}) for _, v in vs):
                    incs[x] = ("last", vmerge(vs))
                else:
                    incs[x] = ("rec", vmerge(vs))
            elif isinstance(h, SArr) and all(isinstance(v, SArr) and v.ndim == h.ndim for _, v in vs):
                m = vmerge(vs)
                z = tuple(fresh("z") for _ in h.dims)
                d = sub(m.get(z), h.get(z))
                if not mentions_app(d, harr[x]):
                    incs[x] = ("accarr", (z, d))
                elif not mentions_app(m.get(z), harr[x]):
                    incs[x] = ("last", m)
                else:
                    raise Unsupported(f"loop-carried array {x}")
            elif isinstance(h, VList) and all(isinstance(v, VList) for _, v in vs):
                segs = []
                for g, v in vs:
                    if not v.segs or v.segs[0] != ("havoc", x):
                        raise Unsupported(f"loop-carried list {x}")
                    segs.append((g, v.segs[1:]))
                incs[x] = ("list", segs)
            else:
                if any(v is UNB or isinstance(v, Poison) for _, v in vs):
                    incs[x] = ("dead", None)
                else:
                    try:
                        incs[x] = ("last", vmerge(vs))
                    except Unsupported:
                        if self.pre[x] is not UNB:
                            raise
                        incs[x] = ("dead", None)   # a temporary of the body; reading it afterwards is reported
        # closed forms of the scalar accumulators at iteration k
        closed = {}
        todo = {x: d for x, (kd, d) in incs.items() if kd == "acc"}
        prog = True
        while prog and todo:
            prog = False
            for x in list(todo):
                d = subst(t_(todo[x]), closed)
                if d.fv.isdisjoint(hv):
                    j = fresh("j")
                    hx = self.hav[x].t
                    closed[hx] = add(t_(self.pre[x]), sum_(j, ZERO, k, subst(d, {k: j})))
                    res[x] = wrap(add(t_(self.pre[x]), sum_(j, ZERO, n, subst(d, {k: j}))), py=False)
                    del todo[x]
                    prog = True
        for x, v in self.pre.items():
            if x not in incs and type(self.hav[x]) is SV:
                closed[self.hav[x].t] = t_(v) if self.hav[x].t.sort != "B" else tobool(v)
        self._raising(bad, closed, hv, harr)
        # a temporary: its value at the start of an iteration is never used
        if todo:
            raise Unsupported(f"loop-carried values {sorted(todo)}")
        hv_left = hv - set(closed)
        # arrays written in the body
        plans = {}
        for nm, (s_, pre) in self.cells.items():
            plans[nm] = self._store_plan(nm, s_, [(c.guard, c.stores[id(s_)][1] if id(s_) in c.stores else None) for c in cases], closed)

        def reads(t):
            """reads of arrays written by this loop see the contents before the loop, if no earlier
            iteration writes the entry that is read"""
            t = tm.subst(t, closed)
            if not self.cells:
                return t

            def f(x):
                if x.op == "app" and x.a[0] in self.cells:
                    q = x.a[1:]
                    j = fresh("j")
                    for z, g in plans[x.a[0]][1]:
                        gj = tm.subst(g, {k: j, **dict(zip(z, q))})
                        if any(v.a[0].startswith("β") for v in gj.fv):
                            raise Unsupported("array read under a binder in a loop that writes it")
                        c = ENG.ctx.plus(le(ZERO, k), lt(k, n), le(ZERO, j), lt(j, k), gj)
                        if c.feasible():
                            raise Unsupported("array entry read after being written by an earlier iteration")
                    return self.cells[x.a[0]][1](q)
                return None
            return tm.replace(t, f)
        for x in list(res):
            if type(res[x]) is SV and any(y.op == "app" and y.a[0] in self.cells for y in tm.subterms(res[x].t)):
                raise Unsupported("accumulation over an array written in the same loop")

        def close(v):
            return vsubst(v, reads)
        for x, (kd, d) in incs.items():
            if kd == "last":
                v = close(d)
                if vfree(v, hv_left):
                    raise Unsupported(f"loop-carried value {x}")
                lastv = vsubst(v, {k: sub(n, ONE)})
                if ENG.decide(lt(ZERO, n)) is True:
                    res[x] = lastv
                elif self.pre[x] is UNB or not (sym.isnum(self.pre[x])):
                    res[x] = Poison(x) if self.pre[x] is not UNB else _Maybe(x, n, lastv)
                    if isinstance(res[x], _Maybe):
                        res[x] = lastv if False else Poison(x)
                else:
                    res[x] = vite(lt(ZERO, n), lastv, self.pre[x])
            elif kd == "rec":
                raise Unsupported(f"loop-carried value {x}")
            elif kd == "accarr":
                z, dd = d
                dd = subst(dd, closed)
                if not dd.fv.isdisjoint(hv_left):
                    raise Unsupported(f"loop-carried array {x}")
                pre = self.pre[x]
                pf = pre.snapshot()
                j = fresh("j")
                tot = sum_(j, ZERO, n, subst(dd, {k: j}))
                res[x] = SArr(pre.dims, lambda i, tot=tot, z=z, pf=pf: add(pf(i), subst(tot, dict(zip(z, i)))), jax=pre.jax, dtype="float")
            elif kd == "list":
                res[x] = VList.from_segs(list(self.pre[x].segs) + self._list_segs([(reads(g), [seg_subst(s, reads) for s in sg]) for g, sg in d]))
            elif kd == "dead":
                res[x] = Poison(x)
        self.out = res
        # effects on lists
        touched = {}
        for c in cases:
            for i_, (l, segs) in c.lists.items():
                touched[i_] = l
        for i_, l in touched.items():
            d = []
            for c in cases:
                segs = c.lists[i_][1] if i_ in c.lists else list(l.segs)
                if i_ in self.lcells and segs and segs[0] == ("havoc", "a list of the loop"):
                    segs = list(l.segs) + segs[1:]
                if segs[:len(l.segs)] != l.segs and not all(a is b for a, b in zip(segs, l.segs)):
                    raise Unsupported("list changed in a loop")
                if len(segs) < len(l.segs):
                    raise Unsupported("list shortened in a loop")
                d.append((reads(c.guard), [seg_subst(s, reads) for s in segs[len(l.segs):]]))
            new = self._list_segs(d)
            l._j()
            l.segs = list(l.segs) + new
        # effects on arrays
        for nm, (s_, pre) in self.cells.items():
            self._store_apply(s_, pre, plans[nm], reads)

    def _raising(self, bad, closed, hv, harr):
        """iterations that raise, judged with the closed forms of the carried values"""
        k, n = self.k, self.n
        out = []
        for c in bad:
            g = tm.subst(c.guard, closed) if closed else c.guard
            if not ENG.ctx.plus(le(ZERO, k), lt(k, n), g).feasible():
                continue
            marks = set(self.cells) | set(harr.values())
            if not g.fv.isdisjoint(hv) or any(y.op == "app" and y.a[0] in marks for y in tm.subterms(g)):
                raise Unsupported("an exception in a loop depends on a loop-carried value")
            out.append(Pass(g, None, c.exc, c.stores, c.lists))
        handle_raises(out, k, n)

    def _list_segs(self, d):
        """segments appended over all iterations"""
        k, n = self.k, self.n
        if all(not sg for _, sg in d):
            return []
        yes = [(g, sg) for g, sg in d if sg]
        if all(len(sg) == 1 and sg[0][0] == "item" for _, sg in yes):
            v = vmerge([(g, sg[0][1]) for g, sg in yes])
            item = lambda j: vsubst(v, {k: j})
            if len(yes) == len(d) and self.it[0] == "sym":
                return [("seg", n, item)]
            g = or_(*[g for g, _ in yes])
            if self.it[0] == "fsym":
                g = and_(g, self.it[3](k))
            return [("fseg", n, item, lambda j: subst(g, {k: j}))]
        if len(d) == 1 and self.it[0] == "sym":
            sg = d[0][1]
            return [("cat", n, lambda j: [seg_subst(s, {k: j}) for s in sg])]
        raise Unsupported("lists appended differently in a loop")

    def _store_plan(self, nm, s, per_case, closed):
        """how an array is updated by one iteration: (kind, [(index vars, write guard)], data)"""
        k, n = self.k, self.n
        z = tuple(fresh("p") for _ in range(s.nd))
        mark = app(nm, *z, sort="R")
        new = [(g, f(z) if f is not None else mark) for g, f in per_case]
        t = new[-1][1]
        for g, v in reversed(new[:-1]):
            t = ite(g, v, t)
        t = tm.subst(t, closed)
        d = push_ites(t, mark)
        if d is not None:
            return ("add", [(z, guard_of(d))], (z, d))
        layers = flatten_layers(t, mark)
        if layers is None:
            raise Unsupported("array update in a loop")
        return ("set", [(z, g) for g, v in layers], (z, mark, layers))

    def _store_apply(self, s, pre, plan, reads):
        k, n = self.k, self.n
        if plan[0] == "add":
            z, d = plan[2]
            d = reads(d)
            j = fresh("j")
            tot = sum_(j, ZERO, n, tm.subst(d, {k: j}))
            s.set(lambda i: add(pre(i), tm.subst(tot, dict(zip(z, i)))))
            return
        z, mark, layers = plan[2]
        solved = []
        for g, v in layers:
            # own entry: not written by another iteration (checked below through determinacy)
            v = tm.replace(v, lambda x: app("own!", *z) if x is mark else None)
            g, v = reads(g), reads(v)
            ks = solve_index(g, k)
            if ks is None:
                if k not in g.fv and k not in v.fv and not any(x.op == "app" and x.a[0] == "own!" for x in tm.subterms(v)):
                    solved.append((and_(lt(ZERO, n), g), v, None))
                    continue
                raise Unsupported("array write: the iteration writing an entry is not determined")
            e = and_(le(ZERO, ks), lt(ks, n), tm.subst(g, {k: ks}))
            solved.append((e, tm.subst(v, {k: ks}), ks))
        for a in range(len(solved)):
            for b in range(a + 1, len(solved)):
                e1, v1, k1 = solved[a]
                e2, v2, k2 = solved[b]
                c = ENG.ctx.plus(e1, e2)
                if k1 is not None and k2 is not None:
                    c = c.plus(not_(eq(k1, k2)))
                if c.feasible() and not sv_.prove_eq(sv_.simp(v1, c), sv_.simp(v2, c), c):
                    raise Unsupported("overlapping writes in a loop")

        def fn(i):
            m = dict(zip(z, i))
            r = pre(i)
            for e, v, ks in reversed(solved):
                vv = tm.replace(tm.subst(v, m), lambda x: pre(i) if x.op == "app" and x.a[0] == "own!" else None)
                r = ite(tm.subst(e, m), vv, r)
            return r
        s.set(fn)

    def final(self, x):
        if not self.live:
            return self.pre[x]
        return self.out.get(x, self.pre[x])

    def target_value(self, x):
        return self.final(x)

    # ---------------- invariant mode
    def hoare_enter(self, loc):
        self.loc0 = dict(loc)
        self.state = self.inv(self, loc)     # invariant object bound to this activation
        self.state.init(loc)
        mode = ENG.choose(2)
        self.k = fresh("i")
        if mode == 0:
            ENG.ctx = ENG.ctx.plus(le(ZERO, self.k), lt(self.k, self.n))
            if not ENG.ctx.feasible():
                raise Infeasible()
            self.havoc = self.state.havoc(self.k, loc)
            return True
        self.havoc = self.state.havoc(self.n, loc)
        return False

    def hget(self, x, loc):
        return self.havoc[x] if x in self.havoc else self.loc0.get(x, UNB)

    def one_checked(self):
        yield self.it[2](self.k)
        loc = sys._getframe(1).f_locals
        self.state.preserve(add(self.k, ONE), loc)
        raise PathDone()

    def exited(self, loc):
        self.state.broke(self.k, loc)


class _Maybe:
    def __init__(self, *a):
        pass


def mentions_app(t, name):
    return any(x.op == "app" and x.a[0] == name for x in tm.subterms(t))


def guard_of(d):
    """condition under which an additive update changes an entry"""
    if d is ZERO:
        return FALSE
    if d.op == "ite":
        return or_(and_(d.a[0], guard_of(d.a[1])), and_(not_(d.a[0]), guard_of(d.a[2])))
    return TRUE


def push_ites(t, mark):
    """d with t = mark + d, when every branch of t is mark + (mark-free); None otherwise"""
    if t is mark:
        return ZERO
    if t.op == "ite":
        if mark in set(tm.subterms(t.a[0])):
            return None
        a, b = push_ites(t.a[1], mark), push_ites(t.a[2], mark)
        if a is None or b is None:
            return None
        return ite(t.a[0], a, b)
    d = sub(t, mark)
    if mark in set(tm.subterms(d)):
        return None
    if len(tm.poly_of(t)) <= len(tm.poly_of(d)) and mark not in set(tm.subterms(t)):
        return None
    return d


def flatten_layers(t, mark, guard=TRUE):
    """t as a list of (guard, value) layers over the marker"""
    out = []
    while t is not mark:
        if t.op != "ite":
            out.append((TRUE, t))
            return out
        c, a, b = t.a
        if a is mark:
            out2 = flatten_layers(b, mark)
            return None if out2 is None else out + [(and_(not_(c), g), v) for g, v in out2]
        if a.op == "ite":
            la = flatten_layers(a, mark)
            if la is None:
                return None
            out += [(and_(c, g), v) for g, v in la]
            # entries where the then-branch keeps the old value must not fall through
            if not any(g is TRUE for g, v in la):
                rest = flatten_layers(b, mark)
                if rest is None:
                    return None
                return out + [(and_(not_(c), g), v) for g, v in rest]
            t = b
            continue
        out.append((c, a))
        t = b
    return out


def solve_index(g, k):
    """the unique k satisfying the guard, from an equality conjunct linear in k, or a block condition
    c*k <= p < c*k + c"""
    cs = g.a if g.op == "and" else (g,)
    for c in cs:
        if c.op == "eq" and k in c.fv:
            sl = sv_.solve_linear(c.a[0], k)
            if sl and abs(sl[0]) == 1 and sl[1].sort == "I":
                return neg(sl[1]) if sl[0] == 1 else sl[1]
    # c*k - p <= 0  and  p - c*k - c + 1 <= 0
    for c in cs:
        if c.op != "le" or k not in c.fv:
            continue
        p = tm.poly_of(c.a[0])
        co, rest = {}, {}
        for m, q in p.items():
            if any(x is k for x, e in m):
                mm = tuple((x, e) for x, e in m if x is not k)
                co[mm] = q
            elif any(k in x.fv for x, e in m):
                co = None
                break
            else:
                rest[m] = q
        if not co:
            continue
        coef = tm.from_poly(co)
        if sv_.sign_of(coef, ENG.ctx) != "pos":
            continue
        point = neg(tm.from_poly(rest))   # coef*k <= point
        up = tm.le0(add(sub(point, mul(coef, k)), sub(ONE, coef)))
        if any(x is up for x in cs) or ENG.ctx.plus(*cs).entails(up):
            return app("idiv", point, coef)
    return None


# =============================================================== builtins
def V_len(x):
    if hasattr(type(x), "__sym_len__"):
        return x.__sym_len__()
    if isinstance(x, (str, list, tuple, dict, set, range, frozenset)):
        return _b.len(x)
    if hasattr(type(x), "__len__"):
        return type(x).__len__(x)
    raise TypeError(f"object of type '{type(x).__name__}' has no len()")


def V_sum(xs, start=0):
    r = t_(start) if sym.isnum(start) else start
    if not isinstance(r, T):
        for y in to_iter(xs)[1]:
            r = r + y
        return r
    acc = None

    def seg_sum(s):
        if s[0] == "item":
            return s[1]
        k = fresh("k")
        if s[0] in ("seg", "fseg"):
            v = s[2](k)
            if not sym.isnum(v):
                if isinstance(v, SArr):
                    f = v.snapshot()
                    n = s[1]
                    return SArr(v.dims, lambda i: sum_(k, ZERO, n, f(i)), jax=v.jax)
                raise Unsupported("sum of a symbolic sequence of non-numbers")
            t = t_(v)
            if s[0] == "fseg":
                t = ite(s[3](k), t, ZERO)
            return wrap(sum_(k, ZERO, s[1], t), py=False)
        if s[0] == "cat":
            t = ZERO
            for x in s[2](k):
                t = add(t, t_(seg_sum(x)))
            return wrap(sum_(k, ZERO, s[1], t), py=False)
        raise Unsupported("sum")
    acc = wrap(r)
    for s in segs_of(xs):
        acc = acc + seg_sum(s)
    return acc


def _extremum(name):
    def f(*xs, key=None, default=UNB):
        if len(xs) == 1:
            it = to_iter(xs[0])
            if it[0] == "sym":
                if key is not None:
                    raise Unsupported("max with key")
                if not ENG.branch(lt(ZERO, it[1])):
                    if default is not UNB:
                        return default
                    raise ValueError(f"{name}() arg is an empty sequence")
                k = fresh("k")
                v = it[2](k)
                return wrap(app("a" + name, tm.arr(it[1], k, t_(v))), py=False)
            if it[0] == "fsym":
                k = fresh("k")
                n = seg_len(("fseg",) + it[1:])
                if not ENG.branch(lt(ZERO, n)):
                    if default is not UNB:
                        return default
                    raise ValueError(f"{name}() arg is an empty sequence")
                return wrap(app("fa" + name, tm.arr(it[1], k, ite(it[3](k), ONE, ZERO)), tm.arr(it[1], k, t_(it[2](k)))), py=False)
            if it[0] == "mixed":
                parts = []
                for s in it[1]:
                    if s[0] == "item":
                        parts.append(s[1])
                    else:
                        k = fresh("k")
                        raise Unsupported("max of a mixed sequence")
            xs = it[1]
            if not xs:
                if default is not UNB:
                    return default
                raise ValueError(f"{name}() arg is an empty sequence")
        if key is not None:
            best = xs[0]
            for y in xs[1:]:
                a, b = key(y), key(best)
                if (a > b) if name == "max" else (a < b):
                    best = y
            return best
        if all(isinstance(x, (int, float, str, tuple)) for x in xs):
            return getattr(_b, name)(xs)
        if not all(sym.isnum(x) for x in xs):
            raise Unsupported(name)
        r = t_(xs[0])
        for y in xs[1:]:
            y = t_(y)
            # Python: max(a, b) keeps a unless b > a  (a NaN in first position stays, in second is ignored)
            if y is tm.NAN:
                continue
            r = r if r is tm.NAN else app(name, r, y)
        return wrap(r, py=False) if not all(isinstance(x, int) for x in xs) else wrap(r)
    return f


V_max, V_min = _extremum("max"), _extremum("min")


class _TypeMeta(type):
    def __getitem__(cls, k):
        return cls

    def __or__(cls, o):
        return _UnionT((cls, o))

    def __ror__(cls, o):
        return _UnionT((o, cls))

    def __instancecheck__(cls, x):
        return V_isinstance(x, cls)

    def __subclasscheck__(cls, c):
        return c in cls._also or type.__subclasscheck__(cls, c)


class _UnionT:
    def __init__(self, a):
        self.__args__ = a


def _mktype(name, real, conv):
    ns = {"__new__": lambda cls, *a, **k: conv(*a, **k), "_also": (real,), "_real": real,
          "__sym_dtype__": name if name in ("int", "float", "bool") else None}
    for k, v in vars(real).items():
        if isinstance(v, (classmethod, staticmethod)) and not k.startswith("__"):
            ns[k] = getattr(real, k)
        elif callable(v) and not k.startswith("__"):
            ns[k] = v
    return _TypeMeta(name, (), ns)


def conv_int(x=0, *a):
    if isinstance(x, str):
        if "⟨" in x:
            mm = PH.fullmatch(x.strip())
            if mm:
                return wrap(UIDS[int(mm.group(1))])
            raise Unsupported("int() of a symbolic string")
        return int(x, *a)
    if isinstance(x, (bool, int)):
        return int(x)
    if hasattr(x, "__sym_int__"):
        return x.__sym_int__()
    t = t_(x)
    if t is tm.NAN:
        raise ValueError("cannot convert float NaN to integer")
    return wrap(t if t.sort == "I" else app("trunc", t))


def conv_float(x=0):
    if isinstance(x, str):
        if "⟨" in x:
            mm = PH.fullmatch(x.strip())
            if mm:
                return wrap(UIDS[int(mm.group(1))])
            raise Unsupported("float() of a symbolic string")
        v = float(x)
        if v != v:
            return SV(tm.NAN)
        if v == float("inf"):
            return SV(PINF)
        if v == float("-inf"):
            return SV(tm.NINF)
        return SV(num(Fr(x.strip())))
    if isinstance(x, SArr) and x.ndim:
        if x.ndim >= 1 and all(d is ONE for d in x.dims):
            return wrap(x.get(tuple(ZERO for _ in x.dims)), py=False)
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    if hasattr(x, "__sym_float__"):
        return x.__sym_float__()
    if hasattr(type(x), "__float__") and not sym.isnum(x):
        return type(x).__float__(x)
    if not sym.isnum(x):
        raise TypeError("float() argument must be a string or a real number")
    return wrap(t_(x), py=False)


def conv_bool(x=False):
    if type(x) is SV:
        return wrap(tobool(x))
    if isinstance(x, SArr):
        return bool(x)
    return bool(x)


def conv_str(x="", *a):
    if type(x) is SV:
        return placeholder(x.t)
    if isinstance(x, SArr):
        return placeholder(x.term())
    return str(x, *a)


def conv_list(x=()):
    return VList.from_segs(segs_of(x))


def conv_tuple(x=()):
    s = segs_of(x)
    if all(y[0] == "item" for y in s):
        return tuple(y[1] for y in s)
    return VList.from_segs(s)


def conv_dict(*a, **k):
    if len(a) == 1 and isinstance(a[0], VMap):
        return dmerge(a[0], k)
    if a and isinstance(a[0], VList):
        a = (list(a[0]),)
    return TDict(*a, **k)


def V_set(x=()):
    it = to_iter(x)
    if it[0] != "concrete":
        return VSymSet(VList.from_segs(segs_of(x)))
    out = []
    for y in it[1]:
        if not any(bool(y == z) for z in out):
            out.append(y)
    return VSet(out)


class VSet:
    """set of possibly symbolic elements (kept in first-occurrence order)"""

    def __init__(self, xs):
        self.xs = xs
        sym.born(self)

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)

    def __sym_iter__(self):
        return VList(self.xs)

    def __contains__(self, x):
        return any(bool(x == y) for y in self.xs)

    def add(self, x):
        sym.mutated(self, "a set")
        if x not in self:
            self.xs = self.xs + [x]

    def pop(self):
        sym.mutated(self, "a set")
        if not self.xs:
            raise KeyError("pop from an empty set")
        i = ENG.choose(len(self.xs)) if len(self.xs) > 1 else 0      # any element may be taken
        x, self.xs = self.xs[i], self.xs[:i] + self.xs[i + 1:]
        return x

    def __sub__(self, o):
        return VSet([x for x in self.xs if x not in o])

    def __or__(self, o):
        r = VSet(list(self.xs))
        for x in o:
            r.add(x)
        return r

    def __and__(self, o):
        return VSet([x for x in self.xs if x in o])

    def issubset(self, o):
        return all(x in o for x in self.xs)

    def __le__(self, o):
        return self.issubset(o)

    def __eq__(self, o):
        return all(x in o for x in self.xs) and all(x in self for x in o)


class VSymSet:
    """set of the elements of a symbolic sequence: only 'all equal' questions are decided"""

    def __init__(self, l):
        self.l = l

    def __sym_len__(self):
        s = self.l.segs
        if len(s) != 1 or s[0][0] != "seg":
            raise Unsupported("size of a symbolic set")
        k = fresh("k")
        v = t_(s[0][2](k))
        v0 = t_(s[0][2](ZERO))
        n = s[0][1]
        if not ENG.branch(lt(ZERO, n)):
            return 0
        if ENG.branch(tm.forall(k, ZERO, n, eq(v, v0))):
            return 1
        ENG.ghost.setdefault("notes", []).append("set of a symbolic sequence with several values")
        r = fresh("setsize")
        ENG.assume(le(num(2), r))
        return wrap(r)

    def pop(self):
        return self.l[0]


def V_sorted(x, key=None, reverse=False):
    it = to_iter(x)
    if it[0] == "concrete":
        xs = list(it[1])
        ks = [key(y) if key else y for y in xs]
        if all(isinstance(q, (int, float, str)) for q in ks):
            return VList([y for _, y in _b.sorted(zip(ks, xs), key=lambda p: p[0], reverse=reverse)])
        # insertion sort with symbolic comparisons (stable)
        out = []
        for kx, y in zip(ks, xs):
            i = len(out)
            while i > 0 and bool((kx < out[i - 1][0]) if not reverse else (kx > out[i - 1][0])):
                i -= 1
            out.insert(i, (kx, y))
        return VList([y for _, y in out])
    if it[0] == "sym" and key is None:
        k = fresh("k")
        a = tm.arr(it[1], k, t_(it[2](k)))
        nm = "sorted_desc" if reverse else "sorted"
        return VList.from_segs([("seg", it[1], lambda j: wrap(app(nm, a, j), py=False))])
    if it[0] == "sym" and not reverse:
        r = generic_value(it[1], lambda k: key(it[2](k)))
        if r is None:
            return VList([])
        k, kv = r
        if not sym.isnum(kv) or isinstance(kv, SArr) and kv.ndim:
            raise Unsupported("sorted by keys which are not numbers")
        a = tm.arr(it[1], k, t_(kv))
        return VList.from_segs([("seg", it[1], lambda j: it[2](app("argsort", a, j, sort="I")))])
    raise Unsupported("sorted")


def V_any(x):
    it = to_iter(x)
    if it[0] == "concrete":
        for y in it[1]:
            if y:
                return True
        return False
    if it[0] == "sym":
        k = fresh("k")
        return wrap(not_(tm.forall(k, ZERO, it[1], not_(tobool(it[2](k))))))
    raise Unsupported("any")


def V_all(x):
    it = to_iter(x)
    if it[0] == "concrete":
        for y in it[1]:
            if not y:
                return False
        return True
    if it[0] == "sym":
        k = fresh("k")
        return wrap(tm.forall(k, ZERO, it[1], tobool(it[2](k))))
    if it[0] == "fsym":
        k = fresh("k")
        return wrap(tm.forall(k, ZERO, it[1], or_(not_(it[3](k)), tobool(it[2](k)))))
    raise Unsupported("all")


def V_map(f, *xs):
    if len(xs) == 1:
        return V_comp("list", xs[0], lambda x: [f(x)])
    return V_comp("list", V_zip(*xs), lambda x: [f(*x)])


def V_filter(f, xs):
    if f is None:
        return V_comp("list", xs, lambda x: [x] if x else [])
    return V_comp("list", xs, lambda x: [x] if f(x) else [])


def V_abs(x):
    if isinstance(x, (int, float)):
        return _b.abs(x)
    return abs(x)


def V_round(x, nd=None):
    if isinstance(x, int):
        return x
    if type(x) is SV and x.t.op == "num":
        r = round(x.t.a[0], nd) if nd is not None else round(x.t.a[0])
        return wrap(num(r))
    return x.__round__(nd)


def V_print(*a, **k):
    pass


def V_divmod(a, b):
    return (a // b, a % b)


def V_pow(a, b, *m):
    return b_pow(a, b)


def V_next(it, *d):
    if isinstance(it, VList):
        if it.concrete and it.segs:
            return it.segs[0][1]
        if not it.segs and d:
            return d[0]
        raise Unsupported("next")
    return _b.next(it, *d)


def V_iter(x):
    return VList.from_segs(segs_of(x))


def V_slice(*a):
    return slice(*a)


def V_type(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is SV:
            return {"I": V_int, "R": V_float, "B": V_bool}[x.t.sort]
        if type(x) is VList:
            return V_list
        if type(x) in (TDict, dict):
            return V_dictt
        if isinstance(x, bool):
            return V_bool
        if isinstance(x, int):
            return V_int
        if isinstance(x, str):
            return V_str
        return type(x)
    return type(*a)


def V_isinstance(x, c):
    if isinstance(c, tuple):
        return _b.any(V_isinstance(x, y) for y in c)
    if hasattr(c, "__args__") and not isinstance(c, type):   # Union
        return _b.any(V_isinstance(x, y) for y in c.__args__)
    if c is V_int:
        return (isinstance(x, int)) or (type(x) is SV and x.t.sort == "I" and x.tag not in ("float", "np"))
    if c is V_float:
        return isinstance(x, float) or (type(x) is SV and (x.t.sort == "R" or x.tag == "float"))
    if c is V_bool:
        return isinstance(x, bool) or (type(x) is SV and x.t.sort == "B")
    if c is V_list:
        return isinstance(x, (list, VList))
    if c is V_str:
        return isinstance(x, str)
    if c is V_tuple:
        return isinstance(x, tuple)
    if c is V_dictt:
        return isinstance(x, (dict, VMap))
    if c is V_sett:
        return isinstance(x, (set, VSet, VSymSet))
    f = getattr(c, "__sym_isinstance__", None)
    if f is not None:
        return f(x)
    if type(c).__name__ == "Unsup":
        raise Unsupported(f"isinstance against {c}")
    import collections.abc as cabc
    if c in (cabc.Iterable, cabc.Sequence) and isinstance(x, (VList, SArr)):
        return not (c is cabc.Sequence and isinstance(x, SArr))
    if c is cabc.Callable:
        return callable(x)
    try:
        return isinstance(x, c)
    except TypeError:
        o = getattr(c, "__origin__", None)
        if o is not None:
            return V_isinstance(x, o)
        raise


V_int = _mktype("int", int, conv_int)
V_float = _mktype("float", float, conv_float)
V_bool = _mktype("bool", bool, conv_bool)
V_str = _mktype("str", str, conv_str)
V_list = _mktype("list", list, conv_list)
V_tuple = _mktype("tuple", tuple, conv_tuple)
V_dictt = _mktype("dict", dict, conv_dict)
V_sett = _mktype("set", set, V_set)


def K(s):
    """exact value of a float literal"""
    return SV(num(Fr(s)), "float")


def b_div(a, b):
    if isinstance(a, (int, float, Fr)) and isinstance(b, (int, float, Fr)):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return wrap(tm.div(t_(a), t_(b)))
    if type(b) is SV and b.t is ZERO and (type(a) is not SArr):
        raise ZeroDivisionError("division by zero")
    return a / b


def b_pow(a, b):
    if isinstance(a, (int, float, Fr)) and isinstance(b, (int, float, Fr)):
        return wrap(sym.power(t_(a), t_(b)))
    return a ** b


class TDict(dict):
    """a dictionary made by the code under contract; changes in a summarised iteration are tracked"""

    def __new__(cls, *a, **k):
        return sym.born(dict.__new__(cls))

    def _touch(self):
        if sym.local(self):
            return
        if ENG.journal is not ENG.dictjournal:
            raise Unsupported("dictionary changed in a summarised iteration")
        old = dict(self)

        def undo(s=self, old=old):
            dict.clear(s)
            dict.update(s, old)
        sym.journal(undo)

    def __setitem__(self, k, v):
        self._touch()
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._touch()
        dict.__delitem__(self, k)

    def update(self, *a, **k):
        if a and isinstance(a[0], VMap):
            raise Unsupported("extending a dictionary by an arbitrary one")
        if a and isinstance(a[0], VList):
            a = (list(a[0]),)
        self._touch()
        dict.update(self, *a, **k)

    def __ior__(self, o):
        if isinstance(o, VMap):
            return NotImplemented
        self.update(o)
        return self

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def pop(self, *a):
        self._touch()
        return dict.pop(self, *a)

    def popitem(self):
        self._touch()
        return dict.popitem(self)

    def clear(self):
        self._touch()
        dict.clear(self)

    def copy(self):
        return TDict(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return TDict({copy.deepcopy(k, memo): copy.deepcopy(v, memo) for k, v in self.items()})

    def __or__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        return TDict({**self, **o})

    def __reduce__(self):
        return (dict, (dict(self),))


def setitem(o, k, v):
    if ENG.journal is not None and not isinstance(o, (SArr, VList, TDict)):
        sym.mutated(o, "an object's item")
    o[k] = v


def augset(o, k, op, v):
    import operator
    setitem(o, k, AUG[op](o[k], v))


def setattr_(o, k, v):
    e = ENG.births.get(id(o))
    if (e is None or e[0] is not o) and not getattr(o, "__dict__", True):
        sym.born(o)         # the first attribute of an object
    sym.mutated(o, f"attribute {k}")
    setattr(o, k, v)


def aug_attr(o, k, op, v):
    setattr_(o, k, AUG[op](getattr(o, k), v))


import operator as _op
AUG = {"Add": _op.iadd, "Sub": _op.isub, "Mult": _op.imul, "Div": lambda a, b: _op.itruediv(a, b) if isinstance(a, SArr) else b_div(a, b),
       "Pow": b_pow, "FloorDiv": _op.ifloordiv, "Mod": _op.imod, "BitOr": _op.ior, "BitAnd": _op.iand, "MatMult": _op.matmul,
       "BitXor": _op.ixor, "LShift": _op.ilshift, "RShift": _op.irshift}


def aug_name(op, a, b):
    if op == "BitOr" and isinstance(a, dict) and isinstance(b, VMap):
        # in place on a concrete dictionary: as long as nobody else refers to it, the same as a new one
        import sys
        e = ENG.births.get(id(a))
        if sys.getrefcount(a) > (4 if e is not None and e[0] is a else 3):
            raise Unsupported("extending a shared dictionary by an arbitrary one")
        return VMap.of(a) | b
    return AUG[op](a, b)


class VMap:
    """an arbitrary dictionary: which keys it has and their values, as functions of the key"""
    _sym_plain = True
    named = ()          # constant keys it has been given

    def __init__(self, has, val, size=None):
        self.has, self.val, self.size = has, val, size

    @classmethod
    def arbitrary(cls, name):
        ne = tobool(SV(app(name + "_nonempty", sort="B")))
        return cls(lambda k: tm.and_(ne, app(name + "_has", k, sort="B")), lambda k: app(name + "_val", k), ne)

    @classmethod
    def of(cls, d):
        if isinstance(d, VMap):
            r = cls(d.has, d.val, d.size)
            r.named = d.named
            return r
        if not isinstance(d, dict):
            raise Unsupported("dictionary")
        items = [(vterm(k), v) for k, v in d.items()]

        def has(k):
            return tm.or_(*[VMap.same(k, q) for q, _ in items]) if items else tm.FALSE

        def val(k):
            r = ZERO
            for q, v in items:
                t = vterm(v)
                r = ite(VMap.same(k, q), ite(t, ONE, ZERO) if t.sort == "B" else t, r)
            return r
        r = cls(has, val, TRUE if items else tm.FALSE)
        r.named = tuple(k for k in d if isinstance(k, str))
        return r

    @staticmethod
    def same(a, b):
        if a is b:
            return TRUE
        if a.op == b.op == "app" and a.a[0] == b.a[0] == "str" and len(a.a) == len(b.a) == 2:
            return tm.FALSE      # two different constants
        return eq(a, b)

    def __sym_dict__(self):
        return self

    def merged(self, o):
        o = VMap.of(o)
        h, v = self.has, self.val
        r = VMap(lambda k: tm.or_(h(k), o.has(k)), lambda k: ite(o.has(k), o.val(k), v(k)),
                 None if self.size is None or o.size is None else tm.or_(self.size, o.size))
        r.named = tuple(dict.fromkeys((*self.named, *o.named)))
        return r

    def __or__(self, o):
        return self.merged(o) if isinstance(o, (dict, VMap)) else NotImplemented

    def __ror__(self, o):
        return VMap.of(o).merged(self) if isinstance(o, dict) else NotImplemented

    def update(self, *o, **k):
        for d in (*o, k):
            m = self.merged(d)
            self.has, self.val, self.size, self.named = m.has, m.val, m.size, m.named
        if ENG.journal is not None:
            raise Unsupported("dictionary updated in a summarised loop")

    def __ior__(self, o):
        self.update(o)
        return self

    def copy(self):
        return VMap.of(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return VMap.of(self)

    def __setitem__(self, k, v):
        self.update({k: v})

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def __contains__(self, k):
        return bool(ENG.branch(self.has(vterm(k))))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return wrap(self.val(vterm(k)), py=False)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __bool__(self):
        if self.size is None:
            raise Unsupported("emptiness of this dictionary")
        return bool(ENG.branch(self.size))

    def __len__(self):
        raise Unsupported("size of an arbitrary dictionary")

    def __iter__(self):
        raise Unsupported("iteration over an arbitrary dictionary")

    keys = items = values = pop = popitem = clear = __iter__

    def __eq__(self, o):
        raise Unsupported("comparison of arbitrary dictionaries")

    __hash__ = None

    def __repr__(self):
        return "<dictionary>"

    def __sym_term__(self):
        k = fresh("key")
        return app("map", tm.arr(ONE, k, ite(self.has(k), app("some", self.val(k)), app("none"))))


def dmerge(*parts):
    if all(isinstance(p, dict) for p in parts):
        r = TDict()
        for p in parts:
            r.update(p)
        return r
    if any(not isinstance(p, (dict, VMap)) for p in parts):
        return TDict({k: v for p in parts for k, v in dict(p).items()})
    r = VMap.of(parts[0])
    for p in parts[1:]:
        r = r.merged(p)
    return r


def not__(x):
    """`not x` stays a native operation"""
    return not x


def stand_in(o):
    return type(o).__module__.startswith("bmivc") and not isinstance(o, BaseException)


def V_hasattr(o, k):
    if hasattr(o, k):
        return True
    if stand_in(o):
        raise Unsupported(f"whether {type(o).__name__} has an attribute {k}")
    return False


def V_getattr(o, k, *d):
    if not d:
        return getattr(o, k)
    try:
        return getattr(o, k)
    except AttributeError:
        if stand_in(o):
            raise Unsupported(f"whether {type(o).__name__} has an attribute {k}")
        return d[0]


EXTRA_BUILTINS = {}


def star(x, before, after):
    """the values of `a, *b, c = x`"""
    if isinstance(x, VList) and not x.concrete:
        n = x.length()
        if not ENG.branch(le(num(before + after), n)):
            raise ValueError("not enough values to unpack")
        return (tuple(x[i] for i in range(before)) + (x[slice(before, -after if after else None)],)
                + tuple(x[i - after] for i in range(after)))
    l = list(x)
    if len(l) < before + after:
        raise ValueError(f"not enough values to unpack (expected at least {before + after}, got {len(l)})")
    return (*l[:before], VList(l[before:len(l) - after]), *l[len(l) - after:])


def make_builtins(imp):
    d = dict(vars(_b))
    d.update(range=V_range, len=V_len, sum=V_sum, max=V_max, min=V_min, enumerate=V_enumerate, zip=V_zip, int=V_int,
             float=V_float, bool=V_bool, str=V_str, list=V_list, tuple=V_tuple, dict=V_dictt, set=V_sett, sorted=V_sorted,
             any=V_any, all=V_all, map=V_map, filter=V_filter, abs=V_abs, round=V_round, print=V_print, reversed=V_reversed,
             isinstance=V_isinstance, divmod=V_divmod, pow=V_pow, next=V_next, iter=V_iter, type=V_type, hasattr=V_hasattr, getattr=V_getattr, __import__=imp)
    d.update(EXTRA_BUILTINS)
    d.update({"__K__": K, "__div__": b_div, "__pow__": b_pow, "__VList__": VList, "__comp__": V_comp, "__Loop__": Loop,
              "__tdict__": TDict, "__setitem__": setitem, "__augset__": augset, "__setattr__": setattr_, "__augattr__": aug_attr,
              "__aug__": aug_name, "__star__": star, "__dmerge__": dmerge, "__Unsup__": (Unsupported, sv_.Deadline)})
    return d
