"""Loads the real bmi sources (rewritten mechanically) with symbolic library shims."""
import builtins
import importlib
import os
import sys
import types

from . import rewrite, seq
from .sym import Unsupported

REPO = os.environ.get("BMI_REPO", "/repo")
SRC = os.path.join(REPO, "src")
REAL_OK = {"abc", "typing", "dataclasses", "enum", "functools", "collections", "collections.abc", "itertools_real", "os",
           "os.path", "warnings", "copy", "contextlib", "string", "re", "numbers", "types", "inspect", "logging", "__future__", "operator",
           "typing_extensions", "jaxtyping_", "traceback", "sys", "io", "uuid", "hashlib", "json", "shutil", "textwrap"}
OVERRIDE = {}        # bmi module name -> fake module, for modules outside the verified part
MODS = {}
LOADED_FILES = {}


class UnsupModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        u = Unsup(f"{self.__name__}.{k}")
        return u


class Unsup:
    """a library object without a contract: mentioning it is fine, using it is not"""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return Unsup(f"{self._name}.{k}")

    def __call__(self, *a, **k):
        raise Unsupported(f"no contract for {self._name}")

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __mro_entries__(self, bases):
        return (object,)

    def __instancecheck__(self, x):
        raise Unsupported(f"isinstance against {self._name}")

    def __repr__(self):
        return f"<{self._name}>"


SHIMS = {}


def _imp(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals["__package__"]
        base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
        name = f"{base}.{name}" if name else base
    if name == "bmi" or name.startswith("bmi."):
        m = load(name)
        if fromlist:
            for f in fromlist:
                if f != "*" and not isinstance(m, LazyPackage) and not hasattr(m, f):
                    try:
                        load(f"{name}.{f}")
                    except ModuleNotFoundError:
                        pass
            return m
        return load("bmi")
    top = name.split(".")[0]
    if top in SHIMS or name in SHIMS:
        m = shim(name)
        if fromlist:
            for f in fromlist:
                full = f"{name}.{f}"
                if full in SHIMS and not hasattr(m, f):
                    setattr(m, f, shim(full))
            return m
        return shim(top)
    if name in REAL_OK or top in REAL_OK:
        return builtins.__import__(name, globals, locals, fromlist, 0)
    # a library without any contract
    m = UnsupModule(name)
    if fromlist:
        return m
    return UnsupModule(top)


def shim(name):
    m = SHIMS[name]
    parts = name.split(".")
    for i in range(len(parts) - 1, 0, -1):
        p = SHIMS.get(".".join(parts[:i]))
        c = SHIMS.get(".".join(parts[:i + 1]))
        if p is not None and c is not None:
            try:
                setattr(p, parts[i], c)
            except Exception:
                pass
    return m


BUILTINS = None


def load(name):
    if name in MODS:
        return MODS[name]
    if name in OVERRIDE:
        MODS[name] = OVERRIDE[name]
        return MODS[name]
    if "." in name:
        load(name.rsplit(".", 1)[0])
        if name in MODS:
            return MODS[name]
    path = os.path.join(SRC, *name.split("."))
    pkg = os.path.isdir(path)
    f = os.path.join(path, "__init__.py") if pkg else path + ".py"
    if not os.path.exists(f):
        raise ModuleNotFoundError(name)
    src = open(f).read()
    LOADED_FILES[name] = f
    if pkg:
        m = LazyPackage(name, f, path, src)
        if not m._stmts:
            MODS[name] = m
            sys.modules[name] = m
            if "." in name:
                p, _, c = name.rpartition(".")
                setattr(MODS[p], c, m)
            return m
    global BUILTINS
    if BUILTINS is None:
        BUILTINS = seq.make_builtins(_imp)
    m = types.ModuleType(name)
    m.__file__ = f
    m.__package__ = name if pkg else name.rpartition(".")[0]
    if pkg:
        m.__path__ = [path]
    m.__dict__["__builtins__"] = BUILTINS
    MODS[name] = m
    # dataclasses and friends look modules up in sys.modules
    sys.modules[f"{name}"] = m
    try:
        code = rewrite.compile_source(src, f, name)
        exec(code, m.__dict__)
    except BaseException:
        MODS.pop(name, None)
        raise
    if "." in name:
        p, _, c = name.rpartition(".")
        setattr(MODS[p], c, m)
    return m


class LazyPackage(types.ModuleType):
    """a package whose __init__ only re-exports names: resolved on access, in source order"""

    def __init__(self, name, f, path, src):
        super().__init__(name)
        self.__file__, self.__package__, self.__path__ = f, name, [path]
        import ast
        names, stmts = {}, False
        for s in ast.parse(src).body:
            if isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    up = name.rsplit(".", s.level - 1)[0] if s.level > 1 else name
                    base = f"{up}.{base}" if base else up
                for a in s.names:
                    names[a.asname or a.name] = (base, a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    names[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                pass
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in ("__all__", "__version__"):
                pass
            elif name == "bmi.benchmark":
                pass      # the assembled task collection is decided by exhaustive evaluation, not symbolically
            else:
                stmts = True
        self._names, self._stmts = names, stmts

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        if k in self.__dict__.get("_names", {}):
            base, attr = self._names[k]
            m = _imp(base, {"__package__": self.__name__}, None, (attr,) if attr else ("_",), 0)
            v = m if attr is None else getattr(m, attr)
            self.__dict__[k] = v
            return v
        try:
            return load(f"{self.__name__}.{k}")
        except ModuleNotFoundError:
            raise AttributeError(k)


def reset():
    for k in list(MODS):
        sys.modules.pop(k, None)
    MODS.clear()


def execute(name):
    """the namespace of a package whose __init__ is executed in full (packages are otherwise resolved lazily)"""
    m = load(name)
    if not isinstance(m, LazyPackage):
        return m
    load("bmi.utils")      # (the builtins of loaded modules exist from the first ordinary module on)
    x = types.ModuleType(name)
    x.__file__, x.__package__, x.__path__ = m.__file__, name, m.__path__
    x.__dict__["__builtins__"] = BUILTINS
    exec(rewrite.compile_source(open(m.__file__).read(), m.__file__, name), x.__dict__)
    return x


def load_file(rel, name):
    """a module of the repository outside src/"""
    if name in MODS:
        return MODS[name]
    load("bmi.utils")
    f = os.path.join(os.path.dirname(SRC), rel)
    if not os.path.exists(f):
        raise ModuleNotFoundError(rel)
    LOADED_FILES[name] = f
    m = types.ModuleType(name)
    m.__file__, m.__package__ = f, ""
    m.__dict__["__builtins__"] = BUILTINS
    MODS[name] = sys.modules[name] = m
    try:
        exec(rewrite.compile_source(open(f).read(), f, name), m.__dict__)
    except BaseException:
        MODS.pop(name, None)
        raise
    return m
