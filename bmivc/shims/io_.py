"""Files, paths, subprocesses, clocks: pathlib, subprocess, tempfile, os, time, yaml and open()."""
import os as real_os
import pathlib as real_pathlib

from .. import loader, seq, sym
from .. import terms as tm
from ..sym import ENG, SV, Unsupported, t_, wrap
from ..terms import ZERO, app, fresh, le, num, var
from . import pandas_
from .np_ import USED

HOLE = seq.PH


def holes(s):
    return [seq.UIDS[int(m.group(1))] for m in HOLE.finditer(s)]


def path_text(name):
    """text standing for an arbitrary path"""
    return seq.placeholder(app("path:" + name, sort="S"))


def head(s):
    """the hole the text starts with, if any"""
    m = HOLE.match(s)
    return (seq.UIDS[int(m.group(1))], s[m.end():]) if m else None


def is_abs(s):
    h = head(s)
    if h is None:
        return s.startswith("/")
    t = h[0]
    if t.op == "app" and t.a[0] in ("abspath", "tmppath"):
        return True
    return None      # either


def absolute(s):
    a = is_abs(s)
    if a:
        return s
    if a is False:
        return real_os.path.abspath(s)
    t, rest = head(s)
    if not (t.op == "app" and t.a[0].startswith("path:")):
        raise Unsupported("path of this form")
    return seq.placeholder(app("abspath", t, sort="S")) + rest


def same_file(s):
    """canonical name of the file a path text denotes"""
    s = real_os.path.normpath(str(s)) if str(s) else str(s)
    h = head(s)
    if h and h[0].op == "app" and h[0].a[0] == "abspath":
        return seq.placeholder(h[0].a[1]) + h[1]
    cwd = real_os.getcwd()
    return s if h or real_os.path.isabs(s) else real_os.path.join(cwd, s)


def key_of(p):
    if isinstance(p, Path):
        p = p.s
    if isinstance(p, str):
        return same_file(p)
    return seq.vterm(p)


pandas_.key_of = key_of


class Path:
    _sym_plain = True

    def __init__(self, *parts):
        USED.add("pathlib.Path")
        s = None
        for p in parts:
            p = p.s if isinstance(p, Path) else p
            if not isinstance(p, str):
                raise TypeError("expected str, bytes or os.PathLike object")
            if s is None:
                s = p
            elif is_abs(p) is None or is_abs(p):
                if is_abs(p) is None:
                    raise Unsupported("joining a path that may be absolute")
                s = p
            else:
                s = s.rstrip("/") + "/" + p
        self.s = self.tidy(s or ".")

    @staticmethod
    def tidy(s):
        return str(real_pathlib.PurePosixPath(s))

    def last(self):
        p = self.s.rsplit("/", 1)[-1]
        if "⟨" in p:
            raise Unsupported("parts of an arbitrary path")
        return real_pathlib.PurePosixPath(self.s)

    parent = property(lambda self: Path(str(self.last().parent)))
    name = property(lambda self: self.last().name)
    stem = property(lambda self: self.last().stem)
    suffix = property(lambda self: self.last().suffix)

    def __truediv__(self, o):
        return Path(self, o)

    def __rtruediv__(self, o):
        return Path(o, self)

    def joinpath(self, *o):
        return Path(self, *o)

    def absolute(self):
        return Path(absolute(self.s))

    def resolve(self, strict=False):
        if "⟨" in self.s:
            raise Unsupported("resolve")
        return Path(str(real_pathlib.Path(self.s).resolve()))

    def with_suffix(self, x):
        return Path(str(self.last().with_suffix(x)))

    def is_absolute(self):
        a = is_abs(self.s)
        if a is None:
            raise Unsupported("is_absolute of an arbitrary path")
        return a

    def as_posix(self):
        return self.s

    def exists(self):
        if key_of(self) in pandas_.files():
            return True
        if "⟨" in self.s:
            raise Unsupported("exists of an arbitrary path")
        return real_os.path.exists(self.s)

    is_file = exists

    def open(self, *a, **k):
        return v_open(self, *a, **k)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"Path.{k}")

    def __str__(self):
        return self.s

    def __sym_str__(self):
        return self.s

    def __fspath__(self):
        return self.s

    def __repr__(self):
        return f"Path({self.s!r})"

    def __format__(self, spec):
        return format(self.s, spec)

    def __eq__(self, o):
        return isinstance(o, Path) and self.s == o.s

    def __hash__(self):
        return hash(self.s)

    def __sym_term__(self):
        return app("str:" + self.s)


pathlib = loader.UnsupModule("pathlib")
pathlib.Path = pathlib.PosixPath = pathlib.PurePath = pathlib.PurePosixPath = Path
loader.SHIMS["pathlib"] = pathlib


# ------------------------------------------------------------------ subprocess
class CalledProcessError(Exception):
    def __init__(self, returncode, cmd, output=None, stderr=None):
        super().__init__(f"Command {cmd!r} failed")
        self.returncode, self.cmd, self.output, self.stdout, self.stderr = returncode, cmd, output, output, stderr


class Text:
    """what a script printed; as a number: its value, or not a number at all"""
    _sym_plain = True

    def __init__(self, k, kind="bytes"):
        self.k, self.kind = k, kind

    def decode(self, *a, **k):
        if self.kind != "bytes":
            raise AttributeError("'str' object has no attribute 'decode'")
        return Text(self.k, "str")

    def strip(self, *a):
        if a:
            raise Unsupported("strip of given characters")
        return Text(self.k, self.kind)

    rstrip = lstrip = strip

    def __sym_float__(self):
        if not parses(self.k):
            raise ValueError("could not convert string to float")
        return wrap(app("printed", num(self.k)), py=False)

    def __str__(self):
        return f"⟦output {self.k}⟧"

    __repr__ = __str__
    __sym_str__ = __str__

    def __format__(self, spec):
        return str(self)

    def __sym_term__(self):
        return app(f"str:{self}")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"{k} of a script's output")


def parses(k):
    d = ENG.ghost.setdefault("parses", {})
    if k not in d:
        d[k] = ENG.choose(2) == 0
    return d[k]


def call(args, k):
    USED.add("subprocess")
    if k.get("shell") or isinstance(args, str):
        raise Unsupported("shell commands")
    if not isinstance(args, (list, tuple, seq.VList)):
        raise Unsupported("command")
    args = [str(a) if isinstance(a, Path) else a for a in list(args)]
    calls = ENG.ghost.setdefault("calls", [])
    fs = dict(pandas_.files())
    calls.append({"args": args, "files": fs, "failed": ENG.choose(2) == 1})
    return len(calls) - 1, calls[-1]["failed"]


PIPE, STDOUT, DEVNULL = "PIPE", "STDOUT", "DEVNULL"
TEXTISH = ("text", "universal_newlines", "encoding")


def check_output(args, *, stderr=None, **k):
    if set(k) - {"shell", "cwd", "env", "timeout", *TEXTISH} or k.get("cwd"):
        raise Unsupported("check_output options")
    i, failed = call(args, k)
    out = Text(i, "str" if any(k.get(q) for q in TEXTISH) else "bytes")
    if failed:
        raise CalledProcessError(1, args, out)
    return out


class Completed:
    _sym_plain = True

    def __init__(self, args, code, out, err):
        self.args, self.returncode, self.stdout, self.stderr = args, code, out, err

    def check_returncode(self):
        if self.returncode != 0:
            raise CalledProcessError(self.returncode, self.args, self.stdout)


def run(args, *, check=False, stdout=None, stderr=None, capture_output=False, **k):
    if set(k) - {"shell", "cwd", "env", "timeout", *TEXTISH} or k.get("cwd"):
        raise Unsupported("run options")
    i, failed = call(args, k)
    kind = "str" if any(k.get(q) for q in TEXTISH) else "bytes"
    out = Text(i, kind) if capture_output or stdout is not None else None
    err = Text(i + 1000, kind) if capture_output or stderr not in (None, STDOUT) else None
    r = Completed(args, 1 if failed else 0, out, err)
    if check:
        r.check_returncode()
    return r


subprocess = loader.UnsupModule("subprocess")
for k_, v_ in dict(check_output=check_output, run=run, CalledProcessError=CalledProcessError, SubprocessError=Exception, PIPE=PIPE, STDOUT=STDOUT, DEVNULL=DEVNULL).items():
    setattr(subprocess, k_, v_)
loader.SHIMS["subprocess"] = subprocess


# ------------------------------------------------------------------ temporary files
class TempFile:
    _sym_plain = True

    def __init__(self, *a, delete=True, suffix=None, **k):
        USED.add("tempfile")
        n = ENG.ghost["tmp"] = ENG.ghost.get("tmp", 0) + 1
        self.name = seq.placeholder(app("tmppath", num(n), sort="S")) + (suffix or "")
        self.delete = delete

    def __enter__(self):
        return self

    def close(self):
        if self.delete:
            pandas_.files().pop(key_of(self.name), None)

    def __exit__(self, *a):
        self.close()
        return False

    def flush(self):
        pass

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"temporary file: {k}")


class TempDir:
    _sym_plain = True

    def __init__(self, *a, **k):
        n = ENG.ghost["tmp"] = ENG.ghost.get("tmp", 0) + 1
        self.name = seq.placeholder(app("tmppath", num(n), sort="S"))

    def __enter__(self):
        return self.name

    def cleanup(self):
        fs = pandas_.files()
        for k in [k for k in fs if isinstance(k, str) and k.startswith(self.name + "/")]:
            del fs[k]

    def __exit__(self, *a):
        self.cleanup()
        return False


tempfile = loader.UnsupModule("tempfile")
tempfile.NamedTemporaryFile, tempfile.TemporaryDirectory = TempFile, TempDir
loader.SHIMS["tempfile"] = tempfile


# ------------------------------------------------------------------ os
osm = loader.UnsupModule("os")
osp = loader.UnsupModule("os.path")
for k_ in ("sep", "linesep", "environ", "getcwd", "PathLike", "curdir", "pardir", "name", "cpu_count"):
    setattr(osm, k_, getattr(real_os, k_))
osm.fspath = lambda p: p if isinstance(p, str) else p.__fspath__()


def unlink(p):
    pandas_.files().pop(key_of(p), None)


osm.remove = osm.unlink = unlink
osp.abspath = lambda p: absolute(osm.fspath(p))
osp.join = lambda *p: str(Path(*[osm.fspath(q) for q in p])) if any("⟨" in osm.fspath(q) for q in p) else real_os.path.join(*[osm.fspath(q) for q in p])
osp.exists = osp.isfile = lambda p: Path(p).exists()
osp.isabs = lambda p: Path(p).is_absolute()


def plain(f):
    def g(p, *a):
        p = osm.fspath(p)
        if "⟨" in p:
            raise Unsupported("parts of an arbitrary path")
        return f(p, *a)
    return g


for k_ in ("basename", "dirname", "splitext", "split", "normpath", "realpath"):
    setattr(osp, k_, plain(getattr(real_os.path, k_)))
osm.path = osp
loader.SHIMS["os"], loader.SHIMS["os.path"] = osm, osp


# ------------------------------------------------------------------ clocks
def clock(kind):
    """readings of a clock: arbitrary, never decreasing"""
    def read():
        USED.add("time." + kind)
        d = ENG.ghost.setdefault("clock", {})
        n = d[kind] = d.get(kind, -1) + 1
        t = app("clock:" + kind, num(n))
        if n:
            ENG.ctx = ENG.ctx.plus(le(app("clock:" + kind, num(n - 1)), t))
        return wrap(t, py=False)
    return read


timem = loader.UnsupModule("time")
for k_ in ("perf_counter", "monotonic", "time", "process_time"):
    setattr(timem, k_, clock(k_))
timem.sleep = lambda s: None
loader.SHIMS["time"] = timem


# ------------------------------------------------------------------ text files and yaml
class TextFile:
    _sym_plain = True

    def __init__(self, path, mode):
        self.path, self.mode, self.parts = path, mode, []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        if "w" in self.mode:
            ENG.ghost.setdefault("texts", {})[key_of(self.path)] = self.parts
            ENG.ghost.setdefault("written", []).append(key_of(self.path))

    def write(self, s):
        self.parts.append(s)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"file method {k}")


def v_open(path, mode="r", *a, **k):
    USED.add("open")
    if mode not in ("w", "wt"):
        raise Unsupported(f"open in mode {mode}")
    return TextFile(path, mode)


seq.EXTRA_BUILTINS["open"] = v_open


class Dumped:
    """the YAML text of a value"""

    def __init__(self, value, dumper):
        self.value, self.dumper = value, dumper


class SafeDumper:
    def represent_data(self, data):
        return ("node", data)


def dump(data, stream=None, Dumper=None, **k):
    USED.add("yaml.dump")
    if set(k) - {"sort_keys", "default_flow_style", "allow_unicode", "indent", "width"}:
        raise Unsupported("yaml.dump options")
    d = Dumped(data, Dumper)
    if stream is None:
        return d
    stream.write(d)


yaml = loader.UnsupModule("yaml")
yaml.dump, yaml.SafeDumper = dump, SafeDumper
yaml.safe_dump = lambda data, stream=None, **k: dump(data, stream, SafeDumper, **k)
loader.SHIMS["yaml"] = yaml
