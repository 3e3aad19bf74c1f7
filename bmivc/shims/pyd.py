"""Executable contract of pydantic v1 models (the part bmi uses): field collection over the MRO,
defaults, coercion and range checks per annotation, validators, dict()/json()/copy()."""
import types
import typing

from .. import loader, seq, sym
from .. import terms as tm
from ..sym import ENG, SArr, SV, Unsupported, isnum, t_, wrap
from ..terms import ONE, ZERO, app, eq, le, lt, not_, num
from .np_ import USED


class ValidationError(ValueError):
    pass


class Constrained:
    def __init__(self, base, **k):
        self.base, self.k = base, k

    def __call__(self, *a):
        raise Unsupported("constrained type call")

    def __or__(self, o):
        return seq._UnionT((self, o))

    def __hash__(self):
        return id(self)


def conint(**k):
    return Constrained("int", **k)


def confloat(**k):
    return Constrained("float", **k)


class FieldInfo:
    def __init__(self, default=Ellipsis, *, default_factory=None, **k):
        self.default, self.default_factory, self.k = default, default_factory, k


def Field(default=Ellipsis, *, default_factory=None, **k):
    return FieldInfo(default, default_factory=default_factory, **k)


def validator(*fields, pre=False, always=False, **k):
    def d(f):
        f = f.__func__ if isinstance(f, classmethod) else f
        f.__validator__ = (fields, pre, always)
        return f
    return d


def root_validator(*a, **k):
    raise Unsupported("pydantic.root_validator")


def is_int(v):
    return isinstance(v, int) or (type(v) is SV and v.t.sort == "I")


def check_num(v, k):
    t = t_(v)
    for op, f in (("gt", lambda b: lt(b, t)), ("ge", lambda b: le(b, t)), ("lt", lambda b: lt(t, b)), ("le", lambda b: le(t, b))):
        if op in k and k[op] is not None:
            if t is tm.NAN:
                raise ValueError("NaN out of range")
            b = t_(k[op])
            if t is sym.PINF:
                if op in ("lt", "le"):
                    raise ValueError("out of range")
                continue
            if t is tm.NINF:
                if op in ("gt", "ge"):
                    raise ValueError("out of range")
                continue
            if not ENG.branch(f(b)):
                raise ValueError(f"value out of range: {op}")


def coerce(v, ann, owner=None):
    if ann is typing.Any or ann is object:
        return v
    if isinstance(ann, Constrained):
        r = coerce(v, seq.V_int if ann.base == "int" else seq.V_float)
        check_num(r, ann.k)
        return r
    if ann is None or ann is type(None):
        if v is not None:
            raise ValueError("none expected")
        return None
    org = typing.get_origin(ann)
    if org is typing.Union or isinstance(ann, seq._UnionT) or org is types.UnionType:
        args = ann.__args__
        if v is None and any(a is type(None) or a is None for a in args):
            return None
        err = None
        for a in args:
            if a is type(None) or a is None:
                continue
            try:
                return coerce(v, a, owner)
            except (ValueError, TypeError) as e:
                err = e
        raise err or ValueError("no match")
    if org is typing.Literal:
        if isinstance(v, str) and "⟨" in v:
            raise Unsupported("symbolic literal")
        for a in ann.__args__:
            if type(v) is type(a) and v == a:
                return v
            if type(v) is SV and isnum(a) and bool(v == a):
                return a
        raise ValueError(f"unexpected value {v!r}")
    if ann is seq.V_float or ann is float:
        if v is None or isinstance(v, (list, tuple, dict)):
            raise TypeError("value is not a valid float")
        return seq.conv_float(v)
    if ann is seq.V_int or ann is int:
        if v is None or isinstance(v, (list, tuple, dict)):
            raise TypeError("value is not a valid integer")
        return seq.conv_int(v)
    if ann is seq.V_bool or ann is bool:
        if isinstance(v, bool) or (type(v) is SV and v.t.sort == "B"):
            return v
        if type(v) is SV and v.t.sort == "I" or isinstance(v, int):
            if bool(v == 0):
                return False
            if bool(v == 1):
                return True
        raise ValueError("value could not be parsed to a boolean")
    if ann is seq.V_str or ann is str:
        if isinstance(v, str):
            return v
        if isnum(v):
            return seq.conv_str(v)
        if hasattr(v, "__sym_str__"):
            return v
        raise TypeError("str type expected")
    if ann is seq.V_dictt or ann is dict:
        if isinstance(v, dict):
            return v
        if hasattr(v, "__sym_dict__"):
            return v
        raise TypeError("value is not a valid dict")
    if org in (dict,):
        if isinstance(v, dict):
            return {a: b for a, b in v.items()}
        if hasattr(v, "__sym_dict__"):
            return v
        raise TypeError("value is not a valid dict")
    name = getattr(org, "__name__", None) or getattr(ann, "__name__", None)
    if ann is seq.V_list or ann is list or org in (list,) or ann is seq.V_tuple or org in (tuple,) or name in ("Sequence", "Iterable", "List"):
        import collections.abc as cabc
        if isinstance(v, (list, tuple, seq.VList)):
            args = typing.get_args(ann)
            el = args[0] if args else typing.Any
            tup = ann is seq.V_tuple or org is tuple
            if not args:
                return tuple(v) if tup else seq.VList.from_segs(seq.segs_of(v))
            r = seq.V_comp("list", v, lambda x: [coerce(x, el)])
            return tuple(r) if tup and r.concrete else r
        if hasattr(v, "__sym_iter__"):
            return v
        raise TypeError("value is not a valid list")
    if isinstance(ann, type) and issubclass(ann, BaseModel):
        if isinstance(v, ann):
            r = object.__new__(type(v))
            for k, x in v.__dict__.items():
                r.__dict__[k] = x
            return r
        if isinstance(v, dict):
            return ann(**v)
        if hasattr(v, "__sym_model__"):
            return v
        raise TypeError("value is not a valid model")
    import pathlib
    if isinstance(ann, type) and ann.__name__ in ("Path", "PurePath"):
        if isinstance(v, ann) or isinstance(v, str) or hasattr(v, "__sym_path__"):
            return v if not isinstance(v, str) else ann(v)
        raise TypeError("path expected")
    if type(ann).__name__ == "Unsup":
        return v
    if isinstance(ann, type):
        if seq.V_isinstance(v, ann):
            return v
        raise TypeError(f"instance of {ann.__name__} expected")
    if isinstance(ann, str):
        raise Unsupported(f"string annotation {ann}")
    raise Unsupported(f"annotation {ann!r}")


class Meta(type):
    def __new__(mcls, name, bases, ns, **k):
        cls = super().__new__(mcls, name, bases, ns)
        fields = {}
        vals = []
        for b in reversed(cls.__mro__):
            if b is object or not isinstance(b, Meta):
                continue
            for f, ann in b.__dict__.get("__annotations__", {}).items():
                if typing.get_origin(ann) is typing.ClassVar or f.startswith("_"):
                    continue
                d = b.__dict__.get(f, Ellipsis)
                fields[f] = (ann, d)
            for n, x in b.__dict__.items():
                if callable(x) and hasattr(x, "__validator__"):
                    vals.append((n, x))
        cls.__fields_sym__ = fields
        cls.__validators_sym__ = vals
        return cls


class BaseModel(metaclass=Meta):
    def __init__(self, **kw):
        USED.add("pydantic.BaseModel")
        out = {}
        cfg = getattr(type(self), "Config", None)
        for f, (ann, d) in self.__fields_sym__.items():
            dflt = d
            if isinstance(d, FieldInfo):
                dflt = d.default
            if f in kw:
                v = kw[f]
            else:
                if isinstance(d, FieldInfo) and d.default_factory is not None:
                    out[f] = d.default_factory()
                    continue
                if dflt is Ellipsis:
                    o = typing.get_origin(ann)
                    if o is typing.Union and type(None) in ann.__args__:
                        out[f] = None
                        continue
                    raise ValidationError(f"field required: {f}")
                import copy
                out[f] = copy.deepcopy(dflt) if not callable(dflt) else dflt
                for n, x in self.__validators_sym__:
                    if f in x.__validator__[0] and x.__validator__[2]:
                        out[f] = x(type(self), out[f])
                continue
            try:
                for n, x in self.__validators_sym__:
                    if f in x.__validator__[0] and x.__validator__[1]:
                        v = x(type(self), v)
                v = coerce(v, ann)
                if isinstance(d, FieldInfo):
                    check_num(v, {q: d.k.get(q) for q in ("gt", "ge", "lt", "le")}) if any(q in d.k for q in ("gt", "ge", "lt", "le")) else None
                for n, x in self.__validators_sym__:
                    if f in x.__validator__[0] and not x.__validator__[1]:
                        ps = x.__code__.co_argcount
                        v = x(type(self), v) if ps == 2 else x(type(self), v, dict(out))
            except (ValueError, TypeError, AssertionError) as e:
                raise ValidationError(f"{type(self).__name__}.{f}: {e}") from e
            out[f] = v
        if cfg is not None and getattr(cfg, "extra", None) == "forbid":
            for k in kw:
                if k not in self.__fields_sym__:
                    raise ValidationError(f"extra field {k}")
        self.__dict__.update(out)

    def __setattr__(self, k, v):
        cfg = getattr(type(self), "Config", None)
        if getattr(cfg, "allow_mutation", True) is False or getattr(cfg, "frozen", False):
            raise TypeError("immutable model")
        if k not in self.__fields_sym__:
            raise ValueError(f'"{type(self).__name__}" object has no field "{k}"')
        self.__dict__[k] = v

    def dict(self, **k):
        if k:
            raise Unsupported("dict() options")

        def conv(v):
            if isinstance(v, BaseModel):
                return v.dict()
            if hasattr(v, "__sym_model__"):
                return v.dict()
            if isinstance(v, dict):
                return {a: conv(b) for a, b in v.items()}
            if isinstance(v, (list, tuple)):
                return type(v)(conv(x) for x in v)
            return v
        return {f: conv(self.__dict__[f]) for f in self.__fields_sym__}

    def json(self, **k):
        return Json(self)

    def copy(self, update=None, deep=False, **k):
        r = object.__new__(type(self))
        r.__dict__.update(self.__dict__)
        if update:
            r.__dict__.update(update)
        return r

    def __sym_term__(self):
        return app("model:" + type(self).__name__, *[app("kv", app("str:" + f), seq.vterm(self.__dict__[f])) for f in self.__fields_sym__])

    def __eq__(self, o):
        if isinstance(o, BaseModel):
            return self.dict() == o.dict()
        return NotImplemented

    __hash__ = None


class Json:
    def __init__(self, m):
        self.m = m

    def __sym_term__(self):
        return app("json", self.m.__sym_term__())

    def __str__(self):
        raise Unsupported("json text")


class Extra:
    forbid, allow, ignore = "forbid", "allow", "ignore"


pydantic = loader.UnsupModule("pydantic")
for k_, v_ in dict(BaseModel=BaseModel, Field=Field, validator=validator, root_validator=root_validator, ValidationError=ValidationError, Extra=Extra,
                   conint=conint, confloat=confloat, PositiveInt=conint(gt=0), NonNegativeInt=conint(ge=0),
                   PositiveFloat=confloat(gt=0), NonNegativeFloat=confloat(ge=0), NegativeInt=conint(lt=0),
                   NegativeFloat=confloat(lt=0)).items():
    setattr(pydantic, k_, v_)
loader.SHIMS["pydantic"] = pydantic
