"""Values of the symbolic interpreter."""
import itertools
from fractions import Fraction

from . import terms as tm
from .terms import T, R, I, B, U


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a verdict by itself)."""


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, name, msg="", value=None):
        super().__init__(name, msg)
        self.name, self.msg, self.value = name, msg, value


_birth = itertools.count(1)


class Num:
    """Symbolic (or exact rational) scalar."""
    __slots__ = ("t", "np")

    def __init__(self, t, np=False):
        self.t, self.np = t, np

    def __repr__(self):
        return "Num(%s)" % self.t


class SymStr:
    """A string known only as an uninterpreted value."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SymStr(%s)" % self.t


class OpaqueStr:
    """Text whose content does not matter (messages)."""
    def __repr__(self):
        return "<text>"


def strconst(s):
    return tm.mk("app", ('"%s"' % s,), U)


class Buf:
    """Array storage: a function from index tuples to terms, replaced on writes."""

    def __init__(self, fn, shape, dtype, name=None):
        self.fn, self.shape, self.dtype, self.name = fn, tuple(shape), dtype, name
        self.birth = next(_birth)
        self.frozen = False
        self.readonly_view_of = None


class Arr:
    """ndarray: a view of a buffer."""
    __slots__ = ("buf", "shape", "imap", "inv", "extra")

    def __init__(self, buf, shape=None, imap=None, inv=None, extra=None):
        self.buf = buf
        self.shape = tuple(buf.shape if shape is None else shape)
        self.imap = imap
        self.inv = inv if imap is not None or inv is not None else (lambda b: (tm.TRUE, b))
        self.extra = extra

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.buf.dtype

    def get(self, ix):
        return self.buf.fn(self.imap(ix) if self.imap else ix)

    def snap(self):
        """Immutable element function of the present contents."""
        fn, imap = self.buf.fn, self.imap
        if imap is None:
            return fn
        return lambda ix: fn(imap(ix))

    def __repr__(self):
        return "Arr(%s,%s)" % (self.shape, self.dtype)


class MArr:
    """numpy masked array."""

    def __init__(self, data, mask, shape):
        self.data, self.mask, self.shape = data, mask, shape


class ListBlock:
    """Items appended at once to a list whose earlier content is abstract (length term, index term -> value)."""

    def __init__(self, n, at):
        self.n, self.at = n, at


FROZEN = []        # index placeholders on which no case distinction is allowed


class PList:
    """Python list: optional symbolic head (n, fn) followed by explicit items."""

    def __init__(self, items=(), head=None):
        self.items = list(items)
        self.head = head          # None or (n term, fn: index term -> value)
        self.sel = None           # head holds the entries of a longer sequence that pass a test: (n, test, getter)
        self.birth = next(_birth)
        self.frozen = False

    def __repr__(self):
        return "PList(%s%s)" % ("head+" if self.head else "", self.items)


class PDict:
    def __init__(self, items=None, fn=None):
        self.items = dict(items or {})
        self.fn = fn              # symbolic look-up: key value -> value
        self.birth = next(_birth)
        self.frozen = False


class PSet:
    def __init__(self, items=()):
        self.items = list(items)
        self.birth = next(_birth)
        self.frozen = False


class Seq:
    """Iterable of symbolic length."""

    def __init__(self, n, get):
        self.n, self.get = n, get


class PObj:
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.birth = next(_birth)
        self.frozen = False

    def __repr__(self):
        return "<%s object>" % (self.cls.name if self.cls else "?")


class PClass:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, PClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def __repr__(self):
        return "<class %s>" % self.name


class PFunc:
    def __init__(self, node, mod, closure, name, kind="func", cls=None, defaults=None, kwdefaults=None):
        self.node, self.mod, self.closure, self.name = node, mod, closure, name
        self.kind = kind          # func | static | classmethod | property
        self.cls = cls
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.stored = False       # functools.cached_property
        self.cache = None         # functools.lru_cache: the calls made so far


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    """Modelled external function: fn(interp, args, kwargs)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class PType:
    """External type used in isinstance and as constructor."""

    def __init__(self, name, call=None):
        self.name, self.call = name, call

    def __repr__(self):
        return "<type %s>" % self.name


class Namespace:
    """Modelled module."""

    def __init__(self, name, table):
        self.name, self.table = name, table


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Poison:
    """Value that may not be read (loop temporary before assignment)."""

    def __init__(self, what, why=None):
        self.what, self.why = what, why


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class ErrState:
    pass


NEWAXIS = None


def is_scalar(v):
    return isinstance(v, (int, float, bool, Num))


def mknum(t, np=False):
    if not np and t.op == "num" and t.sort == I and tm.val(t).denominator == 1:
        return int(tm.val(t))
    if not np and t is tm.TRUE:
        return True
    if not np and t is tm.FALSE:
        return False
    return Num(t, np)


def tv(v):
    """Term of a scalar value."""
    if isinstance(v, Num):
        return v.t
    if isinstance(v, tm.T):
        return v
    if isinstance(v, bool):
        return tm.TRUE if v else tm.FALSE
    if isinstance(v, int):
        return tm.num(v)
    if isinstance(v, float):
        return tm.num(v)
    if isinstance(v, Arr) and v.ndim == 0:
        return v.get(())
    raise Unsupported("scalar expected, got %r" % (v,))


def numterm(t):
    """Boolean terms as 0/1 numbers."""
    if t.sort == B:
        return tm.ite(t, tm.ONE, tm.ZERO)
    return t


def dtype_of(t):
    return {R: "f", I: "i", B: "b", U: "U"}[t.sort]
