"""Assumed contracts for reading text: open, file objects, os.path, re, inspect.getfile.

Text itself (lines, tokens) is concrete: the operations on it are those of Python's own str and re.  Which text a path
holds is said by the specification (it.files); numbers read from text can be left uninterpreted (it.read_number), so that
what is proved holds for every reading of the digits.  A request string that is symbolic but for its letters
(it.spelling) keeps its exact spelling unknown while .lower(), .upper() and the like are known."""
import os
import re as _re

from . import terms as tm
from .values import Builtin, Namespace, OpaqueStr, PList, PyRaise, SymStr, Unsupported


class TextFile:
    def __init__(self, lines):
        self.lines, self.pos, self.drained = lines, 0, False

    def next(self):
        if self.drained:
            raise Unsupported("a file read further after its lines were listed")
        if self.pos >= len(self.lines):
            return None
        self.pos += 1
        return self.lines[self.pos - 1]

    def rest(self):
        if self.drained:
            raise Unsupported("a file read further after its lines were listed")
        out = self.lines[self.pos:]
        self.drained = True
        return out


class Lines(list):
    """The lines a for loop takes from a file, one at a time: the body may read on."""

    def __init__(self, f):
        self.f = f

    def __iter__(self):
        while True:
            x = self.f.next()
            if x is None:
                return
            yield x


class LazyGen:
    def __init__(self, g):
        self.g = g

    def rest(self):
        return list(self.g)

    def next(self):
        return next(self.g, None)


class InfGen(LazyGen):
    """An iterator that never ends; get(i) is its i-th element."""
    def __init__(self, get):
        self.get, self.i = get, 0

    def rest(self):
        raise Unsupported("the whole of an endless iterator")

    def next(self):
        self.i += 1
        return self.get(tm.num(self.i - 1))


SPELL = ("lower", "upper", "casefold", "capitalize", "title", "isalpha", "isdigit", "isalnum", "__len__")


class ReMatch:
    def __init__(self, m):
        self.m = m


class RePattern:
    def __init__(self, p):
        self.p = p


def split_lines(text):
    return text.splitlines(keepends=True)


def b_open(it, a, k):
    path = a[0] if a else k.get("file")
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    if mode not in ("r", "rt"):
        raise Unsupported("file opened with mode %r" % (mode,))
    if it.files is None:
        raise Unsupported("file access")
    return TextFile(split_lines(it.files(it, path)))


def file_attr(it, o, name):
    if name == "readline":
        return Builtin("file.readline", lambda i, a, k: o.next() or "")
    if name == "readlines":
        return Builtin("file.readlines", lambda i, a, k: PList(list(_read(o))))
    if name == "read":
        return Builtin("file.read", lambda i, a, k: "".join(_read(o)))
    if name == "close":
        return Builtin("file.close", lambda i, a, k: None)
    if name == "__enter__":
        return Builtin("file.__enter__", lambda i, a, k: o)
    raise Unsupported("file.%s has no contract" % name)


def _read(o):
    out = o.lines[o.pos:]
    if o.drained:
        out = []
    o.pos = len(o.lines)
    return out


def _str(x):
    if isinstance(x, str):
        return x
    if isinstance(x, (OpaqueStr, SymStr)):
        raise Unsupported("symbolic text")
    raise PyRaise("TypeError", "expected a string")


def _wrap(v):
    if v is None or isinstance(v, (str, int, bool)):
        return v
    if isinstance(v, _re.Match):
        return ReMatch(v)
    if isinstance(v, (list, tuple)):
        return PList([_wrap(x) for x in v]) if isinstance(v, list) else tuple(_wrap(x) for x in v)
    raise Unsupported("result of re: %r" % (v,))


def _flags(k):
    if not k:
        return 0
    raise Unsupported("flags of re")


def _refn(name):
    def f(it, a, k):
        a = list(a)
        if isinstance(a[0], RePattern):
            a[0] = a[0].p
        else:
            a[0] = _str(a[0])
        if name == "compile":
            return RePattern(_re.compile(a[0]))
        if name == "finditer":
            return PList([ReMatch(m) for m in _re.finditer(a[0], _str(a[1]))])
        rest = [_str(x) for x in a[1:]]
        return _wrap(getattr(_re, name)(a[0], *rest, flags=_flags(k)))
    return Builtin("re." + name, f)


def match_attr(it, o, name):
    if name in ("group", "start", "end", "span", "groups"):
        def f(i, a, k):
            try:
                return _wrap(getattr(o.m, name)(*a))
            except IndexError:
                raise PyRaise("IndexError", "no such group")
        return Builtin("re.Match." + name, f)
    raise Unsupported("re.Match.%s" % name)


def pattern_attr(it, o, name):
    f = _refn(name)
    return Builtin("re.Pattern." + name, lambda i, a, k: f.fn(i, [o] + list(a), k))


def _path(name):
    def f(it, a, k):
        return getattr(os.path, name)(*[_str(x) for x in a])
    return Builtin("os.path." + name, f)


def _splitext(it, a, k):
    return tuple(os.path.splitext(_str(a[0])))


def _split(it, a, k):
    return tuple(os.path.split(_str(a[0])))


def _exists(it, a, k):
    if it.files is None:
        raise Unsupported("file access")
    try:
        it.files(it, a[0])
        return True
    except PyRaise:
        return False


def _getfile(it, a, k):
    o = a[0]
    mod = getattr(o, "mod", None)
    if mod is None:
        raise Unsupported("inspect.getfile of %r" % (o,))
    return mod.path


def tables():
    p = Namespace("os.path", {n: _path(n) for n in ("join", "dirname", "abspath", "basename", "realpath", "normpath")})
    p.table.update(splitext=Builtin("os.path.splitext", _splitext), split=Builtin("os.path.split", _split), sep=os.sep,
                   exists=Builtin("os.path.exists", _exists), isfile=Builtin("os.path.isfile", _exists))
    return {
        "os": Namespace("os", {"path": p, "sep": os.sep}), "os.path": p,
        "re": Namespace("re", {n: _refn(n) for n in ("match", "search", "fullmatch", "findall", "finditer", "split", "sub", "compile")}),
        "inspect": Namespace("inspect", {"getfile": Builtin("inspect.getfile", _getfile)}),
        "io": Namespace("io", {"open": Builtin("open", b_open)}),
    }
