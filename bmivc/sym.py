"""Symbolic values and the path explorer: CPython executes the (mechanically rewritten) real code
on these values; branching on an undecided condition replays the execution."""
import linecache
import sys
from fractions import Fraction as Fr

from . import solve as sv_
from . import terms as tm
from .terms import (FALSE, NAN, NINF, ONE, TRUE, ZERO, T, add, and_, app, div, eq, fresh, ite, le, lt, mul, neg, not_,
                    num, or_, powr, sub, subst, sum_, var)

PINF = tm.PINF


class Unsupported(Exception):
    pass


class PathDone(BaseException):
    """the current path ends here (its obligations have been recorded)"""


class Infeasible(BaseException):
    pass


class Budget(BaseException):
    pass


# =============================================================== engine
class Engine:
    def __init__(self):
        self.reset(())

    def reset(self, assumptions):
        self.ctx = sv_.Ctx(assumptions)
        self.oracles = []
        self.journal = None
        self.dictjournal = None     # the journal of a loop whose rule handles changed dictionaries
        self.births = {}
        self.obls = []          # obligations recorded on this path: (name, kind, a, b, ctx)
        self.ghost = {}
        self.depth = 0

    # ---- decisions
    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        c2 = sv_.simp(c, self.ctx)
        if c2 is TRUE:
            return True
        if c2 is FALSE:
            return False
        return self.ctx.decide(c2)

    def branch(self, c):
        d = self.decide(c)
        if d is not None:
            return d
        if not self.oracles:
            raise Unsupported("branch outside exploration: " + tm.show(c))
        r = bool(self.choose(2) == 0)
        self.ctx = self.ctx.plus(c if r else not_(c))
        if not self.ctx.feasible():
            raise Infeasible()
        return r

    def choose(self, n):
        o = self.oracles[-1]
        return o.choose(n)

    def assume(self, *cs):
        self.ctx = self.ctx.plus(*[tobool(c) for c in cs])

    def oblige(self, name, a, b=None, ctx=None):
        """record an obligation: a == b, or the boolean a"""
        self.obls.append((name, a, b, ctx or self.ctx))


class Oracle:
    """DFS over choice sequences by replay"""

    def __init__(self, max_paths=400):
        self.trace = []
        self.pos = 0
        self.n = 0
        self.max = max_paths

    def choose(self, k):
        if self.pos < len(self.trace):
            c = self.trace[self.pos][0]
        else:
            c = 0
            self.trace.append([0, k])
        self.pos += 1
        return c

    def next(self):
        """advance to the next unexplored choice sequence; False when done"""
        self.n += 1
        del self.trace[self.pos:]
        while self.trace and self.trace[-1][0] + 1 >= self.trace[-1][1]:
            self.trace.pop()
        if not self.trace:
            return False
        if self.n > self.max:
            raise Unsupported("too many paths")
        self.trace[-1][0] += 1
        self.pos = 0
        return True


ENG = Engine()


class Path:
    def __init__(self, result, exc, ctx, ghost, obls, done):
        self.result, self.exc, self.ctx, self.ghost, self.obls, self.done = result, exc, ctx, ghost, obls, done


def machinery_error(e):
    """an exception raised because a library contract does not cover a call, not by the code under verification"""
    if isinstance(e, (NotImplementedError, AssertionError, NameError)) and e.__traceback__ is not None:
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        return "/bmivc/" in tb.tb_frame.f_code.co_filename
    if isinstance(e, (AttributeError, TypeError, UnboundLocalError, RecursionError)) and not getattr(e, "_contract", False) and e.__traceback__ is not None:
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        if "/bmivc/" in tb.tb_frame.f_code.co_filename:
            return True
    if isinstance(e, ValueError) and not getattr(e, "_contract", False) and e.__traceback__ is not None:
        # a ValueError of the libraries is raised by a raise statement of their contracts
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        f = tb.tb_frame.f_code.co_filename
        if "/bmivc/" in f and "raise" not in linecache.getline(f, tb.tb_lineno):
            return True
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        return o is not None and (type(o).__module__.startswith("bmivc") or type(o).__module__ == "types")
    if isinstance(e, TypeError):
        m = str(e)
        return any(q in m for q in ("unexpected keyword argument", "positional argument", "required keyword-only", "unsupported operand",
                                    "object is not", "not supported between"))
    if isinstance(e, (KeyError, IndexError)) and e.__traceback__ is not None:
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        return "/bmivc/" in tb.tb_frame.f_code.co_filename and not getattr(e, "_contract", False) and isinstance(e, KeyError)
    return False


def explore(fn, assumptions=(), max_paths=400):
    """all feasible paths of fn() under the assumptions"""
    out = []
    o = Oracle(max_paths)
    while True:
        ENG.reset(tuple(assumptions))
        ENG.oracles = [o]
        o.pos = 0
        res = exc = None
        done = False
        keep = True
        try:
            res = fn()
        except Infeasible:
            keep = False
        except PathDone:
            done = True
        except (Unsupported, Budget, sv_.Deadline):
            raise
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:  # an exception of the code under verification
            if machinery_error(e):
                raise Unsupported(f"outside the contracts of the libraries: {e}") from e
            exc = e
        if keep:
            out.append(Path(res, exc, ENG.ctx, ENG.ghost, ENG.obls, done))
        if not o.next():
            break
    ENG.oracles = []
    return out


def born(o):
    """remember in which summarised iteration (if any) an object was made"""
    ENG.births[id(o)] = (o, ENG.journal)
    return o


def local(o):
    """a summarised iteration may change the objects it made itself"""
    if ENG.journal is None:
        return True
    e = ENG.births.get(id(o))
    return e is not None and e[0] is o and e[1] is ENG.journal


def mutated(o, what):
    if not local(o):
        raise Unsupported(f"{what} changed in a summarised iteration")


def journal(undo):
    if ENG.journal is not None:
        ENG.journal.append(undo)


# =============================================================== conversions
def t_(x):
    """number term of a Python/symbolic scalar"""
    if type(x) is SV:
        if x.t.sort == "B":
            return ite(x.t, ONE, ZERO)
        return x.t
    if isinstance(x, T):
        return x
    if x is True or x is False:
        return ONE if x else ZERO
    if isinstance(x, int):
        return num(x)
    if isinstance(x, Fr):
        return num(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float("inf"):
            return PINF
        if x == float("-inf"):
            return NINF
        return num(Fr(repr(x)))
    if isinstance(x, SArr) and x.ndim == 0:
        return x.get(())
    if hasattr(x, "__sym_term__"):
        return x.__sym_term__()
    raise Unsupported(f"not a symbolic number: {type(x)}")


def tobool(x):
    if isinstance(x, T):
        return x if x.sort == "B" else not_(eq(x, ZERO))
    if type(x) is SV:
        return x.t if x.t.sort == "B" else not_(eq(x.t, ZERO))
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, float, Fr)):
        return TRUE if x else FALSE
    if isinstance(x, SArr) and x.ndim == 0:
        return tobool(x.get(()))
    raise Unsupported(f"not a symbolic truth value: {type(x)}")


def wrap(t, py=True):
    """SV of a term; small concrete integers and truth values become Python values"""
    if py:
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == "num" and t.a[0].denominator == 1:
            return int(t.a[0])
    return SV(t)


def isnum(x):
    return isinstance(x, (int, float, Fr, SV)) or (isinstance(x, SArr) and x.ndim == 0)


# =============================================================== scalars
def _cmp(op):
    def f(self, o):
        if not isnum(o):
            if isinstance(o, SArr):
                return elementwise(lambda a, b: _cmpt(op, a, b), self, o, dtype="bool")
            return NotImplemented
        return wrap(_cmpt(op, t_(self), t_(o)))
    return f


def _cmpt(op, a, b):
    if a is NAN or b is NAN:
        return FALSE
    if a is PINF or b is PINF:
        if a is b:
            return TRUE if op in ("le", "ge", "eq") else FALSE
        if op == "eq":
            return FALSE
        return TRUE if (a is PINF) == (op in ("gt", "ge")) else FALSE
    if op == "le":
        return le(a, b)
    if op == "lt":
        return lt(a, b)
    if op == "ge":
        return le(b, a)
    if op == "gt":
        return lt(b, a)
    if op == "eq":
        return eq(a, b)
    if op == "ne":
        return not_(eq(a, b))


class SV:
    """a symbolic number or truth value"""
    __slots__ = ("t", "tag")
    ndim = 0
    shape = ()
    size = 1
    __array_priority__ = 100

    def __init__(self, t, tag=None):
        self.t = t
        self.tag = tag

    def __repr__(self):
        return f"SV[{tm.show(self.t)}]"

    def __hash__(self):
        return 7

    def __bool__(self):
        return ENG.branch(tobool(self))

    def __int__(self):
        if self.t.op == "num":
            return int(self.t.a[0])
        raise Unsupported("native int() of a symbolic value")

    def __float__(self):
        if self.t.op == "num":
            return float(self.t.a[0])
        raise Unsupported("native float() of a symbolic value")

    def __index__(self):
        if self.t.op == "num" and self.t.a[0].denominator == 1:
            return int(self.t.a[0])
        r = sv_.simp(self.t, ENG.ctx)
        if r.op == "num" and r.a[0].denominator == 1:
            return int(r.a[0])
        raise Unsupported("symbolic value used as a native index")

    def __eq__(self, o):
        if not isnum(o):
            if isinstance(o, SArr):
                return elementwise(eq, self, o, dtype="bool")
            return False
        return wrap(_cmpt("eq", t_(self), t_(o)))

    def __ne__(self, o):
        if not isnum(o):
            if isinstance(o, SArr):
                return elementwise(lambda a, b: not_(eq(a, b)), self, o, dtype="bool")
            return True
        return wrap(not_(_cmpt("eq", t_(self), t_(o))))

    __le__, __lt__, __ge__, __gt__ = _cmp("le"), _cmp("lt"), _cmp("ge"), _cmp("gt")

    def _bin(f):
        def g(self, o):
            if isinstance(o, SArr) and o.ndim:
                return NotImplemented
            if not isnum(o):
                return NotImplemented
            return wrap(f(t_(self), t_(o)))

        def r(self, o):
            if isinstance(o, SArr) and o.ndim:
                return NotImplemented
            if not isnum(o):
                return NotImplemented
            return wrap(f(t_(o), t_(self)))
        return g, r

    __add__, __radd__ = _bin(add)
    __sub__, __rsub__ = _bin(sub)
    __mul__, __rmul__ = _bin(mul)
    __truediv__, __rtruediv__ = _bin(div)
    __floordiv__, __rfloordiv__ = _bin(lambda a, b: floordiv(a, b))
    __mod__, __rmod__ = _bin(lambda a, b: mod(a, b))
    __pow__, __rpow__ = _bin(lambda a, b: power(a, b))
    del _bin

    def __and__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return wrap(and_(tobool(self), tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return wrap(or_(tobool(self), tobool(o)))
    __ror__ = __or__

    def __invert__(self):
        if self.t.sort != "B":
            raise Unsupported("~ of a number")
        return wrap(not_(self.t))

    def __neg__(self):
        return wrap(neg(t_(self)))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(app("abs", t_(self)))

    def __round__(self, nd=None):
        return wrap(app("round", t_(self), num(nd or 0)))

    # array-like surface of zero-dimensional arrays
    def item(self):
        return SV(self.t) if self.tag == "np" else self

    def astype(self, dt):
        return cast(self, dt)

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return {"I": "int", "R": "float", "B": "bool"}[self.t.sort]

    def mean(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def squeeze(self, *a):
        return self

    def block_until_ready(self):
        return self

    def reshape(self, *shape):
        return asarr(self).reshape(*shape)

    def __getitem__(self, k):
        return asarr(self)[k]

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return f"⟨{self.t.uid}:{spec}⟩"


def cast(x, dt):
    d = dtype_name(dt)
    if d == "float":
        return x if not (type(x) is SV and x.t.sort == "B") else wrap(t_(x))
    if d == "int":
        if type(x) is SV:
            return wrap(app("trunc", t_(x)) if x.t.sort == "R" else t_(x))
        return int(x)
    if d == "bool":
        return wrap(tobool(x))
    return x


def dtype_name(dt):
    if dt is None:
        return None
    if isinstance(dt, str):
        for k in ("float", "int", "bool", "uint", "complex"):
            if dt.startswith(k):
                return "int" if k == "uint" else k
        return dt
    n = getattr(dt, "__sym_dtype__", None)
    if n:
        return n
    n = getattr(dt, "__name__", None)
    if n in ("float", "V_float"):
        return "float"
    if n in ("int", "V_int"):
        return "int"
    if n in ("bool", "V_bool"):
        return "bool"
    raise Unsupported(f"dtype {dt!r}")


def floordiv(a, b):
    if a.sort == "I" and b.sort == "I":
        if b is ONE:
            return a
        return app("idiv", a, b)
    return app("floor", div(a, b))


def mod(a, b):
    if a.sort == "I" and b.sort == "I":
        if b is ONE:
            return ZERO
        return app("imod", a, b)
    return sub(a, mul(b, app("floor", div(a, b))))


def power(a, b):
    if b.op == "num":
        return powr(a, b.a[0])
    if a.op == "num" and a.a[0] == 1:
        return ONE
    if a.sort == "I" and b.sort == "I" and b.op == "var" and b.extra in ("nat", "posint"):
        return app("pow", a, b, sort="I")
    return app("pow", a, b)


# =============================================================== arrays
class Store:
    """the memory of an array: a function of an index"""
    __slots__ = ("fn", "writes", "name", "nd")

    def __init__(self, fn, nd):
        self.fn = fn
        self.nd = nd
        self.writes = 0

    def set(self, fn):
        old, ow = self.fn, self.writes

        def undo(self=self, old=old, ow=ow):
            self.fn, self.writes = old, ow
        journal(undo)
        self.fn = fn
        self.writes += 1


def dim(x):
    """dimension as a term"""
    return t_(x)


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return _AtIdx(self.a, k)


class _AtIdx:
    def __init__(self, a, k):
        self.a, self.k = a, k

    def _do(self, f):
        c = self.a.copy()
        c.jax = False
        f(c)
        c.jax = self.a.jax
        return c

    def set(self, v):
        return self._do(lambda c: c.__setitem__(self.k, v))

    def add(self, v):
        return self._do(lambda c: c.__setitem__(self.k, c[self.k] + v))

    def multiply(self, v):
        return self._do(lambda c: c.__setitem__(self.k, c[self.k] * v))


class NestedList:
    """array.tolist() of an array of two or more axes: nested lists holding the values the array had"""
    _sym_plain = True

    def __init__(self, a):
        self.a = SArr(a.dims, a.snapshot(), dtype=a.dtype)

    def __sym_array__(self):
        return self.a

    def __len__(self):
        raise Unsupported("length of a nested list")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"nested list: {n}")


class SArr:
    """array with symbolic shape; entries are terms given by a function of the index"""
    __array_priority__ = 1000
    __slots__ = ("dims", "store", "vmap", "jax", "dtype", "meta")

    def __init__(self, dims, fn=None, store=None, vmap=None, jax=False, dtype="float", meta=None):
        self.dims = tuple(dims)
        self.store = store if store is not None else Store(fn, len(self.dims))
        self.vmap = vmap            # None: identity; else list per base dim of ("fix", t) | ("dim", d, off)
        self.jax = jax
        self.dtype = dtype
        self.meta = meta or {}

    # ---- basics
    @property
    def shape(self):
        return tuple(wrap(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = ONE
        for d in self.dims:
            r = mul(r, d)
        return wrap(r)

    def __len__(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        d = self.dims[0]
        if d.op == "num":
            return int(d.a[0])
        raise Unsupported("native len() of a symbolic array")

    def __sym_len__(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        return wrap(self.dims[0])

    def __hash__(self):
        if self.jax:
            raise TypeError("unhashable type: Array")
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def get(self, idx):
        idx = tuple(idx)
        if self.vmap is None:
            return self.store.fn(idx)
        b = []
        for m in self.vmap:
            if m[0] == "fix":
                b.append(m[1])
            else:
                b.append(add(idx[m[1]], m[2]))
        return self.store.fn(tuple(b))

    def at_(self, *idx):
        """entry at an index given as terms/ints"""
        return self.get(tuple(t_(i) for i in idx))

    def snapshot(self):
        """functional copy of the current contents: function of the index"""
        fn, vm = self.store.fn, self.vmap
        if vm is None:
            return fn

        def g(idx):
            b = []
            for m in vm:
                b.append(m[1] if m[0] == "fix" else add(idx[m[1]], m[2]))
            return fn(tuple(b))
        return g

    def copy(self, **k):
        return SArr(self.dims, self.snapshot(), jax=self.jax, dtype=self.dtype)

    def term(self):
        """extensional term of the contents"""
        return arr_term(self.dims, self.snapshot())

    def __sym_term__(self):
        return self.term()

    def __repr__(self):
        return f"SArr{tuple(tm.show(d) for d in self.dims)}"

    # ---- python protocol
    def __bool__(self):
        if self.ndim == 0:
            return ENG.branch(tobool(self.get(())))
        if all(d is ONE for d in self.dims):
            return ENG.branch(tobool(self.get(tuple(ZERO for _ in self.dims))))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = self.dims[0]
        if n.op != "num":
            raise Unsupported("native iteration over a symbolic array")
        for i in range(int(n.a[0])):
            yield self[i]

    def __float__(self):
        raise Unsupported("native float() of array")

    __int__ = __index__ = __float__

    # ---- indexing
    def _views(self, key):
        """interpret a basic index; returns (new dims, vmap) or None if not basic"""
        if not isinstance(key, tuple):
            key = (key,)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key = key[:i] + (slice(None),) * (self.ndim - n_real) + key[i + 1:]
        else:
            key = key + (slice(None),) * (self.ndim - n_real)
        n_real = sum(1 for k in key if k is not None)
        if n_real > self.ndim:
            raise IndexError("too many indices for array")
        return key

    def __getitem__(self, key):
        key = self._views(key)
        if any(isinstance(k, (SArr, list)) or type(k).__name__ == "VList" for k in key):
            return self._fancy(key)
        if any(isinstance(k, slice) and not _unit_step(k) for k in key):
            return self._strided(key)
        newdims, maps, d, od = [], [], 0, 0
        for k in key:
            if k is None:
                newdims.append(ONE)
                od += 1
                continue
            n = self.dims[d]
            if isinstance(k, slice):
                s, e = norm_slice(k, n)
                newdims.append(simp_dim(sub(e, s)))
                maps.append(("dim", od, s))
                od += 1
            else:
                maps.append(("fix", norm_index(k, n)))
            d += 1
        # compose with the current view
        base = self.vmap if self.vmap is not None else [("dim", i, ZERO) for i in range(self.ndim)]
        vm = []
        for m in base:
            if m[0] == "fix":
                vm.append(m)
            else:
                mm = maps[m[1]]
                if mm[0] == "fix":
                    vm.append(("fix", add(mm[1], m[2])))
                else:
                    vm.append(("dim", mm[1], add(mm[2], m[2])))
        r = SArr(newdims, store=self.store, vmap=vm, jax=self.jax, dtype=self.dtype)
        if not newdims:
            return wrap_elem(r.get(()), self)
        if self.jax:
            r = r.copy()
        return r

    def _strided(self, key):
        fn = self.snapshot()
        newdims, maps, d, od = [], [], 0, 0
        for k in key:
            if k is None:
                newdims.append(ONE)
                od += 1
                continue
            n = self.dims[d]
            if isinstance(k, slice):
                st = k.step
                if _unit_step(k):
                    s, e = norm_slice(k, n)
                    newdims.append(simp_dim(sub(e, s)))
                    maps.append((od, s, ONE))
                elif st == -1 and k.start is None and k.stop is None:
                    newdims.append(n)
                    maps.append((od, sub(n, ONE), num(-1)))
                elif isinstance(st, int) and st > 0:
                    s, e = norm_slice(slice(k.start, k.stop), n)
                    ln = sub(e, s)
                    newdims.append(simp_dim(floordiv(add(ln, num(st - 1)), num(st))))
                    maps.append((od, s, num(st)))
                else:
                    raise Unsupported("slice step")
                od += 1
            else:
                maps.append((None, norm_index(k, n), None))
            d += 1

        def g(idx):
            return fn(tuple(m[1] if m[0] is None else add(m[1], mul(m[2], idx[m[0]])) for m in maps))
        r = SArr(newdims, g, jax=self.jax, dtype=self.dtype)
        return r if newdims else wrap_elem(g(()), self)

    def _fancy(self, key):
        fn = self.snapshot()
        adv = []
        for j, k in enumerate(key):
            if isinstance(k, (SArr, list)) or type(k).__name__ == "VList":
                k = asarr(k)
                if k.dtype == "bool":
                    if len([q for q in key if q is not None and q != slice(None)]) == 1 and k.ndim == self.ndim - 0 and len(key) == 1:
                        return masked(self, k)
                    return masked(self, k) if k.ndim == self.ndim else _mask_rows(self, j, k, key)
                adv.append((j, k))
        ash = broadcast_dims([k.dims for _, k in adv])
        # position of the broadcast dims: at the first advanced index when contiguous
        pos = [j for j, _ in adv]
        first = pos[0] if pos == list(range(pos[0], pos[-1] + 1)) else 0
        newdims, maps, d, od = [], [], 0, 0
        apos = None
        advd = dict((j, k) for j, k in adv)
        for j, k in enumerate(key):
            if j == first and apos is None:
                apos = od
                newdims.extend(ash)
                od += len(ash)
            if k is None:
                newdims.append(ONE)
                od += 1
                continue
            n = self.dims[d]
            if j in advd:
                maps.append(("adv", advd[j], n))
            elif isinstance(k, slice):
                s, e = norm_slice(k, n)
                newdims.append(simp_dim(sub(e, s)))
                maps.append(("dim", od, s))
                od += 1
            else:
                maps.append(("fix", norm_index(k, n)))
            d += 1

        def g(idx):
            b = []
            ai = idx[apos:apos + len(ash)]
            for m in maps:
                if m[0] == "fix":
                    b.append(m[1])
                elif m[0] == "dim":
                    b.append(add(idx[m[1]], m[2]))
                else:
                    e = bget(m[1], ai, ash)
                    b.append(wrap_neg(e, m[2]))
            return fn(tuple(b))
        if not newdims:
            return wrap_elem(g(()), self)
        return SArr(newdims, g, jax=self.jax, dtype=self.dtype)

    def __setitem__(self, key, val):
        if self.jax:
            raise TypeError("JAX arrays are immutable and do not support in-place item assignment.")
        key = self._views(key)
        if any(isinstance(k, (SArr, list)) for k in key):
            return self._fancy_set(key, val)
        view = self[key] if not all(not isinstance(k, slice) and k is not None for k in key) else None
        if view is None:
            # a single entry
            n = [norm_index(k, self.dims[i]) for i, k in enumerate(key)]
            base = self.vmap if self.vmap is not None else [("dim", i, ZERO) for i in range(self.ndim)]
            b = tuple(m[1] if m[0] == "fix" else add(n[m[1]], m[2]) for m in base)
            old = self.store.fn
            v = t_(val)

            def fn(p, old=old, b=b, v=v):
                return ite(and_(*[eq(x, y) for x, y in zip(p, b)]), v, old(p))
            self.store.set(fn)
            return
        view.assign(val)

    def assign(self, val):
        """write val (broadcast) through this view"""
        va = asarr(val)
        vd = va.dims
        if len(vd) > self.ndim:
            raise ValueError("could not broadcast input array")
        dd = broadcast_dims([self.dims, vd], exact=self.dims)
        getv = va.snapshot()
        old = self.store.fn
        base = self.vmap if self.vmap is not None else [("dim", i, ZERO) for i in range(self.ndim)]
        dims = self.dims
        vdims = va.dims

        def fn(p, old=old):
            cond = []
            idx = [ZERO] * len(dims)
            for x, m in zip(p, base):
                if m[0] == "fix":
                    cond.append(eq(x, m[1]))
                else:
                    k = sub(x, m[2])
                    idx[m[1]] = k
                    cond.append(le(ZERO, k))
                    cond.append(lt(k, dims[m[1]]))
            c = and_(*cond)
            if c is FALSE:
                return old(p)
            return ite(c, bgetf(getv, vdims, tuple(idx)), old(p))
        self.store.set(fn)

    def _fancy_set(self, key, val):
        if len(key) == 1 and asarr(key[0]).dtype == "bool":
            m = asarr(key[0])
            mf = m.snapshot()
            va = asarr(val)
            if va.ndim:
                raise Unsupported("masked array assignment")
            v = va.get(())
            view = self[tuple(slice(None) for _ in self.dims)]
            cur = self.snapshot()
            view.assign(SArr(self.dims, lambda idx: ite(tobool(mf(idx[:m.ndim])), v, cur(idx))))
            return
        ks = [asarr(k) if isinstance(k, (SArr, list)) else k for k in key]
        if all(isinstance(k, SArr) and k.ndim == 1 for k in ks) and all(k.meta.get("arange") for k in ks):
            # diagonal-like writes a[arange + c1, arange + c2] = v
            c = [k.meta["arange"] for k in ks]
            if self.vmap is not None:
                raise Unsupported("fancy assignment through a view")
            n = ks[0].dims[0]
            va = asarr(val)
            old = self.store.fn
            getv, vd = va.snapshot(), va.dims

            def fn(p, old=old):
                i = sub(p[0], c[0])
                cond = [le(ZERO, i), lt(i, n)] + [eq(sub(q, d), i) for q, d in zip(p[1:], c[1:])]
                return ite(and_(*cond), bgetf(getv, vd, (i,)), old(p))
            self.store.set(fn)
            return
        raise Unsupported("fancy assignment")

    # ---- in-place arithmetic
    def _iop(f):
        def g(self, o):
            if self.jax:
                return elementwise(f, self, o)
            r = elementwise(f, self, o)
            self.assign(r)
            return self
        return g
    __iadd__, __isub__, __imul__, __itruediv__ = _iop(add), _iop(sub), _iop(mul), _iop(div)
    del _iop

    def _bin(f, dt=None):
        def g(self, o):
            if not (isnum(o) or isinstance(o, (SArr, list, tuple))):
                return NotImplemented
            return elementwise(f, self, o, dtype=dt)

        def r(self, o):
            if not (isnum(o) or isinstance(o, (SArr, list, tuple))):
                return NotImplemented
            return elementwise(f, o, self, dtype=dt)
        return g, r

    __add__, __radd__ = _bin(add)
    __sub__, __rsub__ = _bin(sub)
    __mul__, __rmul__ = _bin(mul)
    __truediv__, __rtruediv__ = _bin(div, "float")
    __floordiv__, __rfloordiv__ = _bin(floordiv)
    __mod__, __rmod__ = _bin(mod)
    __pow__, __rpow__ = _bin(power)
    __and__, __rand__ = _bin(lambda a, b: and_(tobool(a), tobool(b)), "bool")
    __or__, __ror__ = _bin(lambda a, b: or_(tobool(a), tobool(b)), "bool")
    __le__ = _bin(lambda a, b: _cmpt("le", a, b), "bool")[0]
    __lt__ = _bin(lambda a, b: _cmpt("lt", a, b), "bool")[0]
    __ge__ = _bin(lambda a, b: _cmpt("ge", a, b), "bool")[0]
    __gt__ = _bin(lambda a, b: _cmpt("gt", a, b), "bool")[0]
    del _bin

    def __eq__(self, o):
        if not (isnum(o) or isinstance(o, (SArr, list, tuple))):
            return False
        return elementwise(lambda a, b: _cmpt("eq", a, b), self, o, dtype="bool")

    def __ne__(self, o):
        if not (isnum(o) or isinstance(o, (SArr, list, tuple))):
            return True
        return elementwise(lambda a, b: not_(_cmpt("eq", a, b)), self, o, dtype="bool")

    def __neg__(self):
        return elementwise(neg, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return elementwise(lambda a: app("abs", a), self)

    def __invert__(self):
        return elementwise(lambda a: not_(tobool(a)), self, dtype="bool")

    def __matmul__(self, o):
        return matmul(self, asarr(o))

    def __rmatmul__(self, o):
        return matmul(asarr(o), self)

    # ---- methods
    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        axes = tuple(int(a) % self.ndim for a in axes)
        inv = {a: i for i, a in enumerate(axes)}
        base = self.vmap if self.vmap is not None else [("dim", i, ZERO) for i in range(self.ndim)]
        vm = [m if m[0] == "fix" else ("dim", inv[m[1]], m[2]) for m in base]
        r = SArr([self.dims[a] for a in axes], store=self.store, vmap=vm, jax=self.jax, dtype=self.dtype)
        return r.copy() if self.jax else r

    def diagonal(self, offset=0, axis1=0, axis2=1):
        if self.ndim != 2 or type(offset) is not int or (axis1, axis2) != (0, 1):
            raise Unsupported("diagonal")
        m, n = self.dims
        f = self.snapshot()
        if offset == 0 and m is n:
            return SArr((m,), lambda i: f((i[0], i[0])), jax=self.jax, dtype=self.dtype)
        r0, c0 = (0, offset) if offset >= 0 else (-offset, 0)
        ln = app("max", ZERO, app("min", sub(m, num(r0)), sub(n, num(c0))))
        ln = simp_dim(ln)
        return SArr((ln,), lambda i: f((add(i[0], num(r0)), add(i[0], num(c0)))), jax=self.jax, dtype=self.dtype)

    def trace(self):
        return self.diagonal().sum()

    def flatten(self, order="C"):
        if order != "C":
            raise Unsupported("flatten order")
        return self.reshape(-1)

    def round(self, decimals=0, **k):
        raise Unsupported("round")

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self):
        return reshape(self, (-1,))

    flatten = ravel

    def squeeze(self, axis=None):
        ds = []
        for i, d in enumerate(self.dims):
            if axis is None:
                if ENG.branch(eq(d, ONE)):
                    ds.append(i)
            elif i == axis % self.ndim:
                ds.append(i)
        key = tuple(0 if i in ds else slice(None) for i in range(self.ndim))
        return self[key] if ds else self

    def astype(self, dt, **k):
        d = dtype_name(dt)
        f = self.snapshot()
        if d == "bool":
            return SArr(self.dims, lambda i: tobool(f(i)), jax=self.jax, dtype="bool")
        if d == "int" and self.dtype == "float":
            return SArr(self.dims, lambda i: app("trunc", f(i)), jax=self.jax, dtype="int")
        if self.dtype == "bool":
            return SArr(self.dims, lambda i: ite(tobool(f(i)), ONE, ZERO), jax=self.jax, dtype=d)
        return SArr(self.dims, f, jax=self.jax, dtype=d)

    def item(self):
        if all(d is ONE for d in self.dims):
            return wrap(self.get(tuple(ZERO for _ in self.dims)))
        raise Unsupported("item() of a non-scalar")

    def tolist(self):
        if self.ndim == 1:
            from .seq import VList
            return VList.from_segs([("seg", self.dims[0], (lambda f: lambda k: wrap(f((k,))))(self.snapshot()))])
        return NestedList(self)

    def sum(self, axis=None, keepdims=False, **k):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        return reduce_mean(self, axis, keepdims)

    def std(self, axis=None, ddof=0, keepdims=False, **k):
        return reduce_std(self, axis, ddof, keepdims)

    def var(self, axis=None, ddof=0, keepdims=False, **k):
        return reduce_var(self, axis, ddof, keepdims)

    def max(self, axis=None, **k):
        return reduce_opaque("amax", self, axis)

    def min(self, axis=None, **k):
        return reduce_opaque("amin", self, axis)

    def all(self, axis=None, **k):
        return reduce_all(self)

    def any(self, axis=None, **k):
        return wrap(not_(tobool(reduce_all(~self))))

    def dot(self, o):
        return matmul(self, asarr(o))

    def argsort(self, *a, **k):
        from .shims import np_
        return np_.argsort(self, *a, **k)

    def block_until_ready(self):
        return self

    @property
    def at(self):
        return _At(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __format__(self, spec):
        return f"⟨arr{self.term().uid}⟩"


def _unit_step(k):
    return k.step is None or k.step == 1


def wrap_elem(t, a):
    if t.sort in ("K", "A"):
        return SV(t)
    return wrap(t, py=False) if t not in (TRUE, FALSE) else SV(t)


def simp_dim(d):
    if d.op in ("num", "var"):
        return d
    return sv_.simp(d, ENG.ctx)


def index_range(e):
    """m such that e is known to be one of 0..m-1 by the contract of the function producing it"""
    if e.op != "app":
        return None
    if e.a[0] == "argsort" and e.a[1].op == "arr":
        pos, m = e.a[2], e.a[1].a[0]
    elif e.a[0] == "perm":
        pos, m = e.a[3], e.a[2]
    elif e.a[0] in ("choice_norep", "choice_rep"):
        return e.a[2]
    else:
        return None
    return m if ENG.ctx.entails(and_(le(ZERO, pos), lt(pos, m))) else None


class At:
    """the position of an element of a sequence, within it by construction"""

    def __init__(self, t):
        self.t = t


def norm_index(k, n):
    """an integer index into a dimension of size n"""
    if type(k) is At:
        return k.t
    if isinstance(k, bool):
        raise Unsupported("boolean index")
    if isinstance(k, float):
        raise IndexError("only integers are valid indices")
    i = t_(k)
    if i.op == "num" and i.a[0] < 0:
        j = add(i, n)
        if ENG.branch(le(ZERO, j)):
            return j
        raise IndexError("index out of bounds")
    m = index_range(i)
    if m is not None and ENG.ctx.entails(le(m, n)):
        return i
    if ENG.branch(and_(le(ZERO, i), lt(i, n))):
        return i
    if ENG.branch(and_(lt(i, ZERO), le(neg(n), i))):
        return add(i, n)
    raise IndexError("index out of bounds")


def wrap_neg(e, n):
    if e.op == "num":
        return add(e, n) if e.a[0] < 0 else e
    d = ENG.decide(le(ZERO, e))
    if d is True:
        return e
    if d is False:
        return add(e, n)
    r = sv_.sign_of(e, ENG.ctx)
    if r in ("pos", "nonneg", "zero"):
        return e
    if e.op == "app" and e.a[0] in ("perm", "choice", "randint", "argsort"):
        return e
    return ite(le(ZERO, e), e, add(e, n))


def clamp(i, n):
    """slice bound i against a length n, with the sign convention of Python slices"""
    if i is n:
        return n
    if i.op == "num" and i.a[0] >= 0:
        pass
    else:
        d = ENG.decide(le(ZERO, i))
        if d is None:
            d = ENG.branch(le(ZERO, i))
        if d is False:
            j = add(i, n)
            dd = ENG.decide(le(ZERO, j))
            if dd is None:
                dd = ENG.branch(le(ZERO, j))
            return j if dd else ZERO
    if i is ZERO:
        return i
    d = ENG.decide(le(i, n))
    if d is True:
        return i
    if d is False:
        return n
    return app("min", i, n)


def norm_slice(k, n):
    s = ZERO if k.start is None else clamp(t_(k.start), n)
    e = n if k.stop is None else clamp(t_(k.stop), n)
    if s is ZERO:
        return s, e
    d = ENG.decide(le(s, e))
    if d is False:
        return s, s
    if d is None:
        e = app("max", s, e)
    return s, e


# ---------------------------------------------------------------- helpers on arrays
def arr_term(dims, fn):
    vs = [fresh("x") for _ in dims]
    b = fn(tuple(vs))
    if b.sort == "B":
        b = ite(b, ONE, ZERO)
    for d, v in zip(reversed(dims), reversed(vs)):
        b = tm.arr(d, v, b)
    return b


def is_seq(x):
    return isinstance(x, (list, tuple)) or type(x).__name__ == "VList"


def asarr(x, jax=False):
    if isinstance(x, SArr):
        return x
    if isnum(x):
        t = x.t if type(x) is SV else t_(x)
        if isinstance(x, bool):
            t = TRUE if x else FALSE
        dt = {"I": "int", "B": "bool"}.get(t.sort, "float")
        if dt == "int" and (isinstance(x, float) or type(x) is SV and x.tag == "float"):
            dt = "float"
        return SArr((), lambda i: t, jax=jax, dtype=dt)
    if isinstance(x, range):
        st = x.start
        return SArr((num(len(x)),), lambda i: add(num(x.start), mul(num(x.step), i[0])), jax=jax, dtype="int")
    if is_seq(x) and hasattr(x, "segs") or isinstance(x, (list, tuple)):
        return stack_seq(x, jax)
    if hasattr(x, "__sym_array__"):
        return x.__sym_array__()
    if hasattr(x, "__array__"):
        return x.__array__()
    raise Unsupported(f"asarray of {type(x)}")


def stack_seq(x, jax=False):
    """np.array of a list (possibly with symbolic segments) of scalars or equal-shape arrays"""
    from .seq import segs_of
    segs = segs_of(x)
    if not segs:
        return SArr((ZERO,), lambda i: ZERO, jax=jax)
    parts = []
    dims = None
    dt = "int"
    for s in segs:
        if s[0] == "item":
            e = asarr(s[1])
            parts.append((ONE, (lambda f: lambda k, rest: f(rest))(e.snapshot())))
        elif s[0] == "seg":
            k0 = fresh("s")
            e = asarr(s[2](k0))
            fnk = s[2]
            body = {}

            def g(k, rest, e=e, k0=k0, f=e.snapshot(), cache={}):
                return subst(f(tuple(rest)), {k0: k})
            for d in e.dims:
                if k0 in d.fv:
                    raise Unsupported("ragged array")
            parts.append((s[1], g))
        else:
            raise Unsupported("array of a filtered sequence")
        if dims is None:
            dims = e.dims
        elif len(dims) != len(e.dims):
            raise ValueError("inhomogeneous shape")
        else:
            for a, b in zip(dims, e.dims):
                if not ENG.branch(eq(a, b)):
                    raise ValueError("inhomogeneous shape")
        if e.dtype == "float":
            dt = "float"
        elif e.dtype == "bool" and dt == "int":
            dt = "bool"
    n = add(*[p[0] for p in parts]) if len(parts) > 1 else parts[0][0]

    def fn(idx):
        k, rest = idx[0], idx[1:]
        off = ZERO
        res = None
        # build from the last part backwards
        offs = []
        for m, g in parts:
            offs.append(off)
            off = add(off, m)
        if k.op == "num" and all(o.op == "num" for o in offs):
            for (m, g), o in zip(reversed(parts), reversed(offs)):
                if k.a[0] >= o.a[0]:
                    return g(sub(k, o), rest)
        for (m, g), o in zip(reversed(parts), reversed(offs)):
            v = g(sub(k, o), rest)
            res = v if res is None else ite(lt(k, add(o, m)), v, res)
        return res
    return SArr((n,) + tuple(dims), fn, jax=jax, dtype=dt)


def same_dim(a, b):
    """numpy broadcasting of two dimensions"""
    if a is b:
        return a
    if a is ONE:
        return b
    if b is ONE:
        return a
    if ENG.decide(eq(a, b)) is True or sv_.simp(sub(a, b), ENG.ctx) is ZERO:
        return a if a.op in ("num", "var") else b
    if ENG.branch(eq(a, b)):
        return a
    if ENG.branch(eq(a, ONE)):
        return b
    if ENG.branch(eq(b, ONE)):
        return a
    raise ValueError("operands could not be broadcast together")


def broadcast_dims(shapes, exact=None):
    n = max(len(s) for s in shapes)
    out = [ONE] * n
    for s in shapes:
        for i, d in enumerate(reversed(s)):
            out[n - 1 - i] = same_dim(out[n - 1 - i], d)
    return tuple(out)


def bgetf(fn, dims, idx):
    """entry of a function-array broadcast to a larger shape"""
    k = len(dims)
    sub_i = idx[len(idx) - k:] if k else ()
    return fn(tuple(ZERO if (d is ONE) else i for d, i in zip(dims, sub_i)))


def bget(a, idx, shape):
    k = a.ndim
    sub_i = idx[len(idx) - k:] if k else ()
    # a dimension 1 of `a` against a larger one
    return a.get(tuple(ZERO if d is ONE else i for d, i in zip(a.dims, sub_i)))


def num_t(t):
    return ite(t, ONE, ZERO) if t.sort == "B" else t


def elementwise(f, *args, dtype=None, keepb=False):
    for a in args:
        if hasattr(type(a), "_sym_elementwise"):
            return a._sym_elementwise(f, args, dtype)
    arrs = [asarr(a) for a in args]
    jax = any(a.jax for a in arrs)
    dims = broadcast_dims([a.dims for a in arrs]) if len(arrs) > 1 else arrs[0].dims
    fns = [(a.snapshot(), a.dims) for a in arrs]
    if dtype == "bool" or keepb:
        conv = lambda x: x
    else:
        conv = num_t
    if dtype is None:
        dtype = "float" if any(a.dtype == "float" for a in arrs) else "int"

    def fn(idx):
        return f(*[(conv(bgetf(g, d, idx))) for g, d in fns])
    if not dims:
        return wrap(fn(()), py=False)
    memo = {}

    def mfn(idx):
        r = memo.get(idx)
        if r is None:
            r = memo[idx] = fn(idx)
        return r
    return SArr(dims, mfn, jax=jax, dtype=dtype)


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    ka = a.dims[-1]
    kb = b.dims[0] if b.ndim == 1 else b.dims[-2]
    if ka is not kb and not ENG.branch(eq(ka, kb)):
        raise ValueError("matmul: dimension mismatch")
    fa, fb = a.snapshot(), b.snapshot()
    jax = a.jax or b.jax
    if a.ndim == 1 and b.ndim == 1:
        k = fresh("k")
        return wrap(sum_(k, ZERO, ka, mul(num_t(fa((k,))), num_t(fb((k,))))), py=False)
    if a.ndim == 1:
        def fn(i):
            k = fresh("k")
            return sum_(k, ZERO, ka, mul(fa((k,)), fb(tuple(i[:-1]) + (k, i[-1]))))
        return SArr(b.dims[:-2] + b.dims[-1:], fn, jax=jax)
    if b.ndim == 1:
        def fn(i):
            k = fresh("k")
            return sum_(k, ZERO, ka, mul(fa(tuple(i) + (k,)), fb((k,))))
        return SArr(a.dims[:-1], fn, jax=jax)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("batched matmul")

    def fn(i):
        k = fresh("k")
        return sum_(k, ZERO, ka, mul(fa((i[0], k)), fb((k, i[1]))))
    return SArr((a.dims[0], b.dims[1]), fn, jax=jax)


def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(int(x) % a.ndim for x in axis)
    x = int(axis)
    if not -a.ndim <= x < a.ndim:
        raise ValueError("axis out of bounds")
    return (x % a.ndim,)


def _reduced(a, axes, keepdims):
    return [(ONE if i in axes else d) for i, d in enumerate(a.dims)] if keepdims else \
        [d for i, d in enumerate(a.dims) if i not in axes]


def reduce_sum(a, axis=None, keepdims=False):
    a = asarr(a)
    if a.ndim == 0:
        return wrap(num_t(a.get(())), py=False)
    axes = _axes(a, axis)
    f = a.snapshot()
    nd = a.ndim

    def fn(idx):
        it = iter(idx)
        full = []
        vs = []
        for i in range(nd):
            if i in axes:
                if keepdims:
                    next(it)
                v = fresh("k")
                vs.append((v, a.dims[i]))
                full.append(v)
            else:
                full.append(next(it))
        t = num_t(f(tuple(full)))
        for v, d in reversed(vs):
            t = sum_(v, ZERO, d, t)
        return t
    dims = _reduced(a, axes, keepdims)
    if not dims:
        return wrap(fn(()), py=False)
    return SArr(dims, fn, jax=a.jax, dtype="int" if a.dtype in ("int", "bool") else "float")


def _count(a, axis):
    n = ONE
    for i in _axes(a, axis):
        n = mul(n, a.dims[i])
    return n


def reduce_mean(a, axis=None, keepdims=False):
    a = asarr(a)
    if a.ndim == 0:
        return wrap(num_t(a.get(())), py=False)
    if "masked" in a.meta:
        n = a.dims[0]
    else:
        n = _count(a, axis)
    return reduce_sum(a, axis, keepdims) / wrap(n, py=False)


def reduce_var(a, axis=None, ddof=0, keepdims=False):
    a = asarr(a)
    m = reduce_mean(a, axis, True)
    d = a - m
    n = _count(a, axis)
    s = reduce_sum(d * d, axis, keepdims)
    return s / wrap(sub(n, t_(ddof)), py=False)


def reduce_std(a, axis=None, ddof=0, keepdims=False):
    v = reduce_var(a, axis, ddof, keepdims)
    return elementwise(lambda x: app("sqrt", x), v) if isinstance(v, SArr) else wrap(app("sqrt", t_(v)), py=False)


def reduce_opaque(name, a, axis=None):
    """max/min as an opaque function of the (ordered) entries along one axis"""
    a = asarr(a)
    if a.ndim == 0:
        return wrap(a.get(()), py=False)
    axes = _axes(a, axis)
    f = a.snapshot()

    def fn(idx):
        it = iter(idx)
        full, vs = [], []
        for i in range(a.ndim):
            if i in axes:
                v = fresh("k")
                vs.append((v, a.dims[i]))
                full.append(v)
            else:
                full.append(next(it))
        t = num_t(f(tuple(full)))
        if all(d.op == "num" and d.a[0] <= 4 for _, d in vs) and len(vs) == 1:
            d = int(vs[0][1].a[0])
            r = subst(t, {vs[0][0]: ZERO})
            for k in range(1, d):
                r = app("max" if name == "amax" else "min", r, subst(t, {vs[0][0]: num(k)}))
            return r
        for v, d in reversed(vs):
            t = tm.arr(d, v, t)
        return app(name, t, sort="R")
    dims = _reduced(a, axes, False)
    if not dims:
        return wrap(fn(()), py=False)
    return SArr(dims, fn, jax=a.jax, dtype=a.dtype)


def reduce_all(a):
    a = asarr(a)
    f = a.snapshot()
    vs = [fresh("k") for _ in a.dims]
    t = tobool(f(tuple(vs)))
    for v, d in reversed(list(zip(vs, a.dims))):
        t = tm.forall(v, ZERO, d, t)
    return wrap(t)


def reshape(a, shape):
    shape = list(shape)
    fn = a.snapshot()
    tot = ONE
    for d in a.dims:
        tot = mul(tot, d)
    neg1 = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    dims = [None if i in neg1 else t_(s) for i, s in enumerate(shape)]
    if neg1:
        rest = ONE
        for d in dims:
            if d is not None:
                rest = mul(rest, d)
        # cancel common dimensions
        q = div(tot, rest)
        q = sv_.simp(q, ENG.ctx)
        if q.sort != "I":
            q2 = floordiv(tot, rest)
            if not ENG.branch(eq(mul(q2, rest), tot)):
                raise ValueError("cannot reshape")
            q = q2
        dims[neg1[0]] = q
    else:
        p = ONE
        for d in dims:
            p = mul(p, d)
        if p is not tot and not ENG.branch(eq(p, tot)):
            raise ValueError("cannot reshape array")
    old = [d for d in a.dims]
    # drop/insert unit dimensions
    o1 = [d for d in old if d is not ONE]
    n1 = [d for d in dims if d is not ONE]
    if len(o1) == len(n1) and all(x is y or ENG.decide(eq(x, y)) is True for x, y in zip(o1, n1)):
        keep_new = [i for i, d in enumerate(dims) if d is not ONE]

        def g(idx):
            it = iter([idx[i] for i in keep_new])
            return fn(tuple(ZERO if d is ONE else next(it) for d in old))
    else:
        # row-major flattening
        def g(idx):
            lin = ZERO
            for i, d in zip(idx, dims):
                lin = add(mul(lin, d), i)
            out = []
            for d in reversed(old):
                out.append(mod(lin, d) if d is not old[0] or len(old) > 1 and out.__len__() < len(old) - 1 else lin)
                lin = floordiv(lin, d)
            return fn(tuple(reversed(out)))
    if not dims:
        return wrap(g(()), py=False)
    r = SArr(dims, g, jax=a.jax, dtype=a.dtype)
    if not a.jax and a.vmap is None and len(o1) == len(n1):
        # reshaping shares memory; writes through the reshaped array are not supported
        r.meta["shares"] = a.store
    return r


def masked(a, m):
    """a[m] for a boolean mask of the same shape: only order-independent reductions are exact"""
    f, g = a.snapshot(), m.snapshot()
    vs = [fresh("k") for _ in a.dims]
    cnt = ite(tobool(g(tuple(vs))), ONE, ZERO)
    for v, d in reversed(list(zip(vs, a.dims))):
        cnt = sum_(v, ZERO, d, cnt)
    r = MaskedArr((cnt,), lambda i: app("masked", arr_term(a.dims, f), arr_term(a.dims, g), i[0]),
                  jax=a.jax, dtype=a.dtype, meta={"masked": (a.dims, f, g)})
    return r


class MaskedArr(SArr):
    __slots__ = ()

    def sum(self, axis=None, **k):
        dims, f, g = self.meta["masked"]
        vs = [fresh("k") for _ in dims]
        t = ite(tobool(g(tuple(vs))), num_t(f(tuple(vs))), ZERO)
        for v, d in reversed(list(zip(vs, dims))):
            t = sum_(v, ZERO, d, t)
        return wrap(t, py=False)

    def mean(self, axis=None, **k):
        return self.sum() / wrap(self.dims[0], py=False)

    def map(self, fn):
        dims, f, g = self.meta["masked"]
        return MaskedArr(self.dims, lambda i: fn(SArr.get(self, i)), jax=self.jax, dtype=self.dtype,
                         meta={"masked": (dims, lambda i: fn(f(i)), g)})


def _mask_rows(a, j, k, key):
    raise Unsupported("row mask")
