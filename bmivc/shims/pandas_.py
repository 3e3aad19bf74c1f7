"""pandas: data frames as a list of column labels and a value for every (row, column); CSV files as the frames written to them."""
import re

from .. import loader, seq, sym
from .. import solve as sv_
from .. import terms as tm
from ..sym import ENG, SArr, SV, Unsupported, asarr, isnum, t_, wrap
from ..terms import ONE, TRUE, ZERO, add, and_, app, eq, fresh, ite, le, lt, num, sub
from .np_ import USED

DIG = re.compile(r"(\D*)(0|[1-9]\d*)")


def parse(label):
    """(text with holes, numbers in the holes)"""
    if not isinstance(label, str):
        raise Unsupported("column label that is not a string")
    if "⟨" in label:
        ts = [seq.UIDS[int(m.group(1))] for m in seq.PH.finditer(label)]
        if any(m.group(2) for m in seq.PH.finditer(label)):
            raise Unsupported("formatted column label")
        return seq.PH.sub("\0", label), ts
    m = DIG.fullmatch(label)
    if m:
        return m.group(1) + "\0", [num(int(m.group(2)))]
    return label, []


def same_label(a, b):
    """condition for two labels to be equal"""
    (s, x), (r, y) = parse(a), parse(b)
    if s != r:
        return tm.FALSE
    return and_(*[eq(p, q) for p, q in zip(x, y)]) if x else TRUE


def entails(c, ctx):
    return c is TRUE or ctx.decide(c) is True or ctx.entails(c)


class Frame:
    """n rows; cols: list of labels; val(i, j): entry of row i in column number j"""
    _sym_plain = True

    def __init__(self, cols, n, val):
        self.cols, self.n, self.val = cols, n, val

    # ---- columns
    @property
    def columns(self):
        return seq.VList.from_segs(self.cols.segs)

    @property
    def width(self):
        return add(ZERO, *[seq.seg_len(s) for s in self.cols.segs])

    @property
    def shape(self):
        return (wrap(self.n), wrap(self.width))

    def __sym_len__(self):
        return wrap(self.n)

    def __len__(self):
        raise Unsupported("native len of a data frame")

    def position(self, label, ctx):
        """column number of a label"""
        off = ZERO
        found = []
        for s in self.cols.segs:
            ln = seq.seg_len(s)
            if s[0] == "item":
                c = same_label(s[1], label)
                if c is not tm.FALSE and ctx.decide(c) is not False:
                    found.append((c, off))
            elif s[0] == "seg":
                k = fresh("k")
                (a, x), (b, y) = parse(s[2](k)), parse(label)
                if a == b:
                    if len(x) != 1:
                        raise Unsupported("column labels")
                    sl = sv_.solve_linear(sub(x[0], y[0]), k)
                    if not sl or abs(sl[0]) != 1:
                        raise Unsupported("column labels")
                    e = tm.neg(sl[1]) if sl[0] == 1 else sl[1]
                    c = and_(le(ZERO, e), lt(e, ln))
                    if ctx.decide(c) is not False:
                        found.append((c, add(off, e)))
            else:
                raise Unsupported("column labels")
            off = add(off, ln)
        if len(found) != 1:
            if not found:
                raise KeyError(label)
            raise Unsupported("column label found in several places")
        c, p = found[0]
        if not entails(c, ctx):
            raise Unsupported("column label possibly missing")
        return p

    def __getitem__(self, key):
        if isinstance(key, str):
            p = self.position(key, ENG.ctx)
            return SArr((self.n,), lambda i: self.val(i[0], p))
        if not isinstance(key, (list, seq.VList)):
            raise Unsupported("data frame index")
        segs = []
        for s in seq.segs_of(key):
            if s[0] == "item":
                p = self.position(s[1], ENG.ctx)
                segs.append((ONE, lambda k, p=p: p))
            elif s[0] == "seg":
                k = fresh("k")
                p = self.position(s[2](k), ENG.ctx.plus(le(ZERO, k), lt(k, s[1])))
                segs.append((s[1], lambda j, p=p, k=k: tm.subst(p, {k: j})))
            elif s[0] == "fseg":
                raise Unsupported("filtered column labels")
            else:
                raise Unsupported("column labels")

        def pos(j):
            off, parts = ZERO, []
            for ln, g in segs:
                parts.append((add(off, ln), g(sub(j, off))))
                off = add(off, ln)
            if not parts:
                return ZERO
            r = parts[-1][1]
            for e, p in reversed(parts[:-1]):
                r = ite(lt(j, e), p, r)
            return r
        cols = seq.VList.from_segs(seq.segs_of(key))
        return Frame(cols, self.n, lambda i, j: self.val(i, pos(j)))

    # ---- values
    def __sym_array__(self):
        USED.add("pandas.DataFrame.to_numpy")
        return SArr((self.n, self.width), lambda i: self.val(i[0], i[1]))

    def to_numpy(self, *a, **k):
        return self.__sym_array__()

    values = property(lambda self: self.__sym_array__())

    def copy(self, deep=True):
        return Frame(seq.VList.from_segs(self.cols.segs), self.n, self.val)

    def to_csv(self, path=None, *, index=True, header=True, **k):
        USED.add("pandas.DataFrame.to_csv")
        if k or header is not True or path is None:
            raise Unsupported("to_csv options")
        cols, val = self.cols, self.val
        if index is not False:
            cols = seq.VList.from_segs([("item", "Unnamed: 0")] + list(cols.segs))
            val = lambda i, j, v=self.val: ite(eq(j, ZERO), i, v(i, sub(j, ONE)))
        files()[key_of(path)] = Frame(seq.VList.from_segs(cols.segs), self.n, val)
        ENG.ghost.setdefault("written", []).append(key_of(path))


def files():
    return ENG.ghost.setdefault("files", {})


def key_of(path):
    if isinstance(path, str):
        return path
    return seq.vterm(path)


def DataFrame(data=None, columns=None, **k):
    USED.add("pandas.DataFrame")
    if isinstance(data, dict) and columns is None and not k and any(isinstance(x, KeyCol) for x in data.values()):
        return keyed_frame(data)
    if k or data is None or columns is None:
        raise Unsupported("DataFrame options")
    a = asarr(data)
    if a.ndim != 2:
        raise Unsupported("data frame of this shape")
    cols = seq.VList.from_segs(seq.segs_of(columns))
    f = Frame(cols, a.dims[0], None)
    g = a.snapshot()
    f.val = lambda i, j: g((i, j))
    if not ENG.branch(eq(f.width, a.dims[1])):
        raise ValueError("Shape of passed values does not match the columns")
    return f


def read_csv(path, *, nrows=None, float_precision=None, **k):
    USED.add("pandas.read_csv")
    if k:
        raise Unsupported("read_csv options")
    fs = files()
    p = key_of(path)
    if p not in fs:
        raise FileNotFoundError(str(path))
    f = fs[p]
    n = f.n
    if nrows is not None:
        n = app("min", t_(nrows), n)
    val = f.val
    if float_precision != "round_trip":
        # the default parser may be off in the last digit
        val = lambda i, j: app("csv_parse", f.val(i, j))
    return Frame(seq.VList.from_segs(f.cols.segs), n, val)


# ------------------------------------------------------------------ relational tables (selection, grouping, pivoting)
# A row of a table is a row r of the N original rows for which keep(r) holds; a column is a function of r.  Grouped
# tables have one row per key; pivoted tables one cell per (index value, column value).
def has_rows(cond, n, name="q"):
    """number of rows r < n with cond(r)"""
    q = fresh(name)
    return tm.sum_(q, ZERO, n, ite(cond(q), ONE, ZERO))


class Series:
    """a column of a table"""
    _sym_plain = True

    def __init__(self, rows, fn, kind="num"):
        self.rows, self.fn, self.kind = rows, fn, kind      # rows = (n, keep)

    def _sym_elementwise(self, f, args, dtype):
        return self._op(lambda *t: f(*t), args, "bool" if dtype == "bool" else "num")

    def _op(self, f, args, kind):
        fs = []
        for a in args:
            if isinstance(a, Series):
                if a.rows[0] is not self.rows[0] or a.rows[1] is not self.rows[1]:
                    raise Unsupported("columns of different tables")
                fs.append(a.num)
            elif isinstance(a, str):
                fs.append(lambda r, t=seq.vterm(a): t)
            elif isnum(a):
                fs.append(lambda r, t=t_(a): t)
            else:
                raise Unsupported("operand of a column")
        return Series(self.rows, lambda r: f(*[g(r) for g in fs]), kind)

    def num(self, r):
        if hasattr(self.fn, "negates"):
            return sub(ONE, self.fn.negates.num(r))
        t = self.fn(r)
        return ite(t, ONE, ZERO) if t.sort == "B" else t

    def cond(self, r):
        t = self.fn(r)
        return t if t.sort == "B" else tm.not_(eq(t, ZERO))

    def __eq__(self, o):
        return self._op(eq, (self, o), "bool")

    def __ne__(self, o):
        return self._op(lambda a, b: tm.not_(eq(a, b)), (self, o), "bool")

    def __lt__(self, o):
        return self._op(lt, (self, o), "bool")

    def __le__(self, o):
        return self._op(le, (self, o), "bool")

    def __gt__(self, o):
        return self._op(lambda a, b: lt(b, a), (self, o), "bool")

    def __ge__(self, o):
        return self._op(lambda a, b: le(b, a), (self, o), "bool")

    def __add__(self, o):
        return self._op(add, (self, o), "num")

    def __radd__(self, o):
        return self._op(add, (o, self), "num")

    def __sub__(self, o):
        return self._op(sub, (self, o), "num")

    def __rsub__(self, o):
        return self._op(sub, (o, self), "num")

    def __mul__(self, o):
        return self._op(tm.mul, (self, o), "num")

    def __rmul__(self, o):
        return self._op(tm.mul, (o, self), "num")

    def __truediv__(self, o):
        return self._op(tm.div, (self, o), "num")

    def __rtruediv__(self, o):
        return self._op(tm.div, (o, self), "num")

    def _bool2(self, o, f):
        if self.kind != "bool" or not isinstance(o, Series) or o.kind != "bool":
            raise Unsupported("logical operation on columns that are not boolean")
        if o.rows[0] is not self.rows[0] or o.rows[1] is not self.rows[1]:
            raise Unsupported("columns of different tables")
        return Series(self.rows, lambda r: f(self.cond(r), o.cond(r)), "bool")

    def __and__(self, o):
        return self._bool2(o, and_)

    def __or__(self, o):
        return self._bool2(o, tm.or_)

    def __invert__(self):
        if self.kind != "bool":
            raise Unsupported("~ of a column that is not boolean")
        def fn(r):
            return tm.not_(self.cond(r))
        fn.negates = self
        return Series(self.rows, fn, "bool")

    __hash__ = None

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous.")

    def max(self):
        USED.add("pandas.Series.max")
        n, keep = self.rows
        q = fresh("q")
        return wrap(app("max_where", tm.arr(n, q, ite(keep(q), self.num(q), tm.NINF))))

    def copy(self, deep=True):
        return Series(self.rows, self.fn, self.kind)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"pandas.Series.{n}")


class Table:
    """rows of an original table with n rows for which keep holds; columns are functions of the original row"""
    _sym_plain = True

    def __init__(self, n, cols, keep=None):
        self.__dict__.update(n=n, cols=dict(cols), keep=keep or (lambda r: TRUE))

    rows = property(lambda self: (self.n, self.keep))

    def series(self, c):
        if c not in self.cols:
            raise KeyError(c)
        f, kind = self.cols[c]
        return Series(self.rows, f, kind)

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.series(k)
        if isinstance(k, Series):
            USED.add("pandas.DataFrame[boolean column]")
            if k.kind != "bool" or k.rows[0] is not self.n or k.rows[1] is not self.keep:
                raise Unsupported("selection by a column of another table")
            old = self.keep
            return Table(self.n, self.cols, lambda r: and_(old(r), k.cond(r)))
        if isinstance(k, (list, seq.VList)):
            names = [s[1] if s[0] == "item" else None for s in seq.segs_of(k)]
            if not all(isinstance(x, str) for x in names):
                raise Unsupported("column list")
            for x in names:
                self.series(x)
            return Table(self.n, {x: self.cols[x] for x in names}, self.keep)
        raise Unsupported("data frame index")

    def __setitem__(self, c, s):
        if not isinstance(c, str):
            raise Unsupported("assignment to a table")
        if isinstance(s, Series):
            if s.rows[0] is not self.n or s.rows[1] is not self.keep:
                raise Unsupported("assignment of a column of another table")
            self.cols[c] = (s.fn, s.kind)
        elif isinstance(s, str) or isnum(s):
            t = seq.vterm(s)
            self.cols[c] = (lambda r: t, "num")
        else:
            raise Unsupported("assignment to a table")

    def assign(self, **k):
        t = self.copy()
        for c, s in k.items():
            t[c] = s(t) if callable(s) and not isinstance(s, Series) else _retable(s, self, t)
        return t

    def copy(self, deep=True):
        if deep is not True:
            raise Unsupported("shallow copy")
        return Table(self.n, self.cols, self.keep)

    @property
    def columns(self):
        return list(self.cols)

    def groupby(self, keys, **k):
        USED.add("pandas.DataFrame.groupby")
        if any(x not in ("sort", "observed") for x in k) or k.get("observed") not in (None, True, False):
            raise Unsupported("groupby options")
        names = [keys] if isinstance(keys, str) else [s[1] for s in seq.segs_of(keys)]
        for x in names:
            self.series(x)
        return Group(self, names)

    def drop_duplicates(self, subset=None, **k):
        USED.add("pandas.DataFrame.drop_duplicates")
        if k or subset is None:
            raise Unsupported("drop_duplicates options")
        names = [subset] if isinstance(subset, str) else [s[1] for s in seq.segs_of(subset)]
        g = Group(self, names)

        def first(c):
            def val(key):
                q = fresh("q")
                w = tm.arr(self.n, q, ite(g.member(q, key), ONE, ZERO))
                r0 = app("first_row", w, sort="I")
                # the first row of the group is a row of the group: its key columns are the key
                f = self.series(c).num(r0)
                for x, kx in zip(names, key):
                    f = tm.replace(f, lambda u, o=self.cols[x][0](r0), w=kx: w if u is o else None)
                return f
            return val
        return KeyTable([Part(names, g.count, {c: (first(c) if c not in names else (lambda key, j=names.index(c): key[j])) for c in self.cols})])

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if n in self.__dict__.get("cols", {}):
            return self.series(n)
        raise Unsupported(f"pandas.DataFrame.{n}")

    def __setattr__(self, n, v):
        raise Unsupported("attribute of a table")


def _retable(s, old, new):
    if isinstance(s, Series) and s.rows[0] is old.n and s.rows[1] is old.keep:
        return Series(new.rows, s.fn, s.kind)
    return s


class Group:
    """rows grouped by key columns"""
    _sym_plain = True

    def __init__(self, t, names, cols=None):
        self.t, self.names, self.sel = t, names, cols

    def member(self, r, key):
        return and_(self.t.keep(r), *[eq(self.t.cols[x][0](r), k) for x, k in zip(self.names, key)])

    def count(self, key):
        return has_rows(lambda r: self.member(r, key), self.t.n)

    def __getitem__(self, k):
        if isinstance(k, str):
            self.t.series(k)
            return Group(self.t, self.names, k)
        names = [s[1] for s in seq.segs_of(k)]
        for x in names:
            self.t.series(x)
        return Group(self.t, self.names, names)

    def _agg(self, f, what):
        USED.add(f"pandas.GroupBy.{what}")
        if not isinstance(self.sel, list):
            raise Unsupported("aggregation of one column")
        cols = {x: (lambda key, j=j: key[j]) for j, x in enumerate(self.names)}
        for c in self.sel:
            cols[c] = f(c)
        return KeyTable([Part(self.names, self.count, cols)], indexed=True)

    def _sum(self, c):
        s = self.t.series(c)

        def val(key):
            q = fresh("q")
            return tm.sum_(q, ZERO, self.t.n, tm.mul(ite(self.member(q, key), ONE, ZERO), s.num(q)))
        return val

    def sum(self):
        return self._agg(self._sum, "sum")

    def mean(self):
        return self._agg(lambda c: (lambda key, f=self._sum(c): tm.div(f(key), self.count(key))), "mean")

    def transform(self, f, *a, **k):
        USED.add("pandas.GroupBy.transform")
        if f not in ("max",) or a or k or not isinstance(self.sel, str):
            raise Unsupported("groupby transform")
        s = self.t.series(self.sel)

        def val(r):
            key = [self.t.cols[x][0](r) for x in self.names]
            q = fresh("q")
            return app("max_where", tm.arr(self.t.n, q, ite(self.member(q, key), s.num(q), tm.NINF)))
        return Series(self.t.rows, val)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"pandas.GroupBy.{n}")


class Part:
    """one row per key with a positive count; columns are functions of the key"""

    def __init__(self, names, count, cols):
        self.names, self.count, self.cols = names, count, cols


class KeyCol:
    """a column of a keyed table"""
    _sym_plain = True

    def __init__(self, table, c):
        self.table, self.c = table, c

    def at(self, key):
        return self.table.parts[0].cols[self.c](key)


class KeyColE(KeyCol):
    """an expression over columns of a keyed table"""

    def __init__(self, table, f):
        self.table, self.f = table, f

    def at(self, key):
        return self.f(key)


def _kop(f):
    def op(self, o):
        if isinstance(o, KeyCol):
            if o.table is not self.table:
                raise Unsupported("columns of different tables")
            g = o.at
        elif isnum(o):
            g = lambda key: t_(o)
        else:
            raise Unsupported("operand of a column")
        return KeyColE(self.table, lambda key: f(self.at(key), g(key)))
    return op


for _n, _f in (("add", add), ("sub", sub), ("mul", tm.mul), ("truediv", tm.div)):
    setattr(KeyCol, f"__{_n}__", _kop(_f))
    setattr(KeyCol, f"__r{_n}__", _kop(lambda a, b, f=_f: f(b, a)))


class KeyTable:
    """tables with one row per key (grouped, deduplicated or concatenated)"""
    _sym_plain = True

    def __init__(self, parts, indexed=False):
        self.parts, self.indexed = parts, indexed

    def reset_index(self, drop=False):
        if drop and not self.indexed:
            return self
        if drop:
            raise Unsupported("index dropped")
        if not self.indexed:
            raise Unsupported("reset_index of a table without index columns")
        return KeyTable(self.parts)

    def __getitem__(self, k):
        if self.indexed or len(self.parts) != 1:
            raise Unsupported("columns of this table")
        p = self.parts[0]
        if isinstance(k, str):
            if k not in p.cols:
                raise KeyError(k)
            return KeyCol(self, k)
        names = [s[1] for s in seq.segs_of(k)]
        return KeyTable([Part(p.names, p.count, {x: p.cols[x] for x in names})])

    def __setitem__(self, c, s):
        if self.indexed or len(self.parts) != 1 or not isinstance(c, str):
            raise Unsupported("assignment to this table")
        p = self.parts[0]
        if isinstance(s, KeyCol) and s.table is self:
            p.cols = {**p.cols, c: s.at}
        elif isinstance(s, str) or isnum(s):
            p.cols = {**p.cols, c: (lambda key, t=seq.vterm(s): t)}
        else:
            raise Unsupported("assignment to this table")

    def copy(self, deep=True):
        return KeyTable([Part(p.names, p.count, dict(p.cols)) for p in self.parts], self.indexed)

    def rename(self, columns=None, **k):
        if k or columns is None:
            raise Unsupported("rename options")
        return KeyTable([Part(p.names, p.count, {columns.get(c, c): f for c, f in p.cols.items()}) for p in self.parts], self.indexed)

    def pivot(self, *, index, columns, values):
        USED.add("pandas.DataFrame.pivot")
        if not all(isinstance(x, str) for x in (index, columns, values)) or self.indexed:
            raise Unsupported("pivot options")
        return Pivot(self, index, columns, values)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"pandas.DataFrame.{n}")


class Label:
    name = None


class Pivot:
    """cell(a, b): (condition that the cell has a value, the value)"""
    _sym_plain = True

    def __init__(self, t, index, columns, values):
        self.t, self.idx, self.col, self.val = t, index, columns, values
        self.index, self.columns = Label(), Label()

    def cell(self, a, b):
        out = []
        for p in self.t.parts:
            if any(c not in p.cols for c in (self.idx, self.col)):
                raise Unsupported("a pivot over missing columns")
            key, cond = [], []
            for x in p.names:
                # the key column is the index, the column label or unconstrained
                key.append(a if x == self.idx else b if x == self.col else None)
            if None in key:
                raise Unsupported("a pivot that does not determine the rows")
            cond = [eq(p.cols[self.idx](key), a), eq(p.cols[self.col](key), b), lt(ZERO, p.count(key))]
            out.append((and_(*cond), p.cols[self.val](key) if self.val in p.cols else tm.NAN))
        return out

    @property
    def style(self):
        return Styler(self)


class Styler:
    """presentation of a table: every styling call is recorded and leaves the table as it is"""
    _sym_plain = True

    def __init__(self, data):
        self.data, self.index, self.columns, self.calls = data, Label(), Label(), []

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n not in ("format", "set_table_styles", "background_gradient", "set_caption", "highlight_null", "set_properties"):
            raise Unsupported(f"Styler.{n}")

        def call(*a, **k):
            self.calls.append((n, a, k))
            return self
        return call


def keyed_frame(data):
    cols = [x for x in data.values() if isinstance(x, KeyCol)]
    t = cols[0].table
    if any(x.table is not t for x in cols) or len(t.parts) != 1 or t.indexed:
        raise Unsupported("a data frame of columns of different tables")
    p = t.parts[0]
    out = {}
    for c, x in data.items():
        if isinstance(x, KeyCol):
            out[c] = x.at
        elif isinstance(x, str) or isnum(x):
            out[c] = lambda key, v=seq.vterm(x): v
        else:
            raise Unsupported("a data frame of these columns")
    return KeyTable([Part(p.names, p.count, out)])


def concat(objs, *a, **k):
    USED.add("pandas.concat")
    if a or any(x != "ignore_index" for x in k):
        raise Unsupported("concat options")
    parts = []
    for s in seq.segs_of(objs):
        if s[0] != "item" or not isinstance(s[1], KeyTable) or s[1].indexed:
            raise Unsupported("concat of these tables")
        parts += s[1].parts
    return KeyTable(parts)


def isna(x):
    raise Unsupported("isna")


pd = loader.UnsupModule("pandas")
pd.DataFrame, pd.read_csv, pd.concat, pd.isna = DataFrame, read_csv, concat, isna
loader.SHIMS["pandas"] = pd
