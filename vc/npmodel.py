"""Contracts of NumPy, SciPy and the Python built-ins on symbolic values.

Every entry is a trusted contract of an external function (listed in the evidence); they are
compared with the real libraries on concrete inputs by tools/difftest.py.
"""
import itertools
from fractions import Fraction

from . import terms as tm
from .terms import R, I, B, U
from .values import *
from . import values as V
from . import textmodel

NUMPY, MATH, BUILT, SCIPY = {}, {}, {}, {}
Z, ONE = tm.ZERO, tm.ONE
R0, R1 = tm.num(Fraction(0)), tm.num(Fraction(1))
FULL = SliceV(None, None, None)


def reg(table, *names):
    def deco(fn):
        for n in names:
            table[n] = Builtin(n if table is BUILT else "np." + n, fn)
        return fn
    return deco


def npf(*names):
    return reg(NUMPY, *names)


def bi(*names):
    return reg(BUILT, *names)


def getargs(args, kwargs, names, defaults=()):
    """Positional/keyword argument binding for modelled functions."""
    if len(args) > len(names):
        raise Unsupported("too many arguments for a modelled function")
    out = dict(zip(names, args))
    for k, v in kwargs.items():
        if k not in names:
            raise Unsupported("keyword %s of a modelled function" % k)
        out[k] = v
    d = dict(zip(names[len(names) - len(defaults):], defaults))
    for n in names:
        if n not in out:
            if n in d:
                out[n] = d[n]
            else:
                raise PyRaise("TypeError", "missing argument %s" % n)
    return [out[n] for n in names]


# ====================================================================== basic helpers
def mkarr(fn, shape, dtype="f", name=None):
    return Arr(Buf(fn, shape, dtype, name))


def const_arr(t, shape, dtype):
    return mkarr(lambda ix: t, shape, dtype)


def size(a):
    t = ONE
    for s in a.shape:
        t = tm.mul(t, s)
    return t


def as_int(t):
    """Integer term equal to t when t is visibly integer valued."""
    if t.sort == I:
        return t
    if t.op == "num" and tm.val(t).denominator == 1:
        return tm.num(int(tm.val(t)))
    if t.op in ("add", "mul"):
        ks = [as_int(k) for k in t.args]
        if all(k is not None for k in ks):
            return (tm.add if t.op == "add" else tm.mul)(*ks)
    return None


def intterm(it, v):
    """Integer term of a value used as index or size."""
    if isinstance(v, Arr):
        if v.ndim == 0:
            v = Num(v.get(()), True)
        else:
            raise PyRaise("TypeError", "only integer scalar arrays can be converted to an index")
    if not is_scalar(v):
        raise PyRaise("TypeError", "an integer is required")
    t = numterm(tv(v))
    if t.sort == I:
        return it.ctx.rw(t)
    raise PyRaise("TypeError", "'float' object cannot be interpreted as an integer")


def dims(it, s):
    """Shape tuple from an int or a sequence."""
    if isinstance(s, (tuple, PList)) or isinstance(s, Arr) and s.ndim == 1:
        return tuple(intterm(it, x) for x in it.concrete_items(s))
    return (intterm(it, s),)


def truncate(t):
    if t.sort == I:
        return t
    if t.sort == B:
        return numterm(t)
    a = as_int(t)
    if a is not None:
        return a
    return tm.ite(tm.le(R0, t), tm.floor(t), tm.ceil(t))


def cast(t, dtype):
    if dtype == "f":
        return numterm(t)
    if dtype == "i":
        return truncate(t)
    if dtype == "b":
        if t.sort == B:
            return t
        return tm.ne(t, Z if t.sort == I else R0)
    return t


DT = {"float": "f", "int": "i", "bool": "b", "str": "U", "float64": "f", "longdouble": "f",
      "float32": "f", "int64": "i", "int32": "i", "bool_": "b", "intp": "i", "double": "f",
      "complex": None, "object": None}


def dtype_val(d, default):
    if d is None:
        return default
    if isinstance(d, DType):
        return d.kind
    if isinstance(d, PType):
        k = DT.get(d.name.split(".")[-1])
        if k is None:
            raise Unsupported("dtype %s" % d.name)
        return k
    if isinstance(d, str):
        k = DT.get(d)
        if k is None:
            raise Unsupported("dtype %s" % d)
        return k
    raise Unsupported("dtype %r" % (d,))


class DType:
    def __init__(self, kind):
        self.kind = kind
        self.name = {"f": "float64", "i": "int64", "b": "bool"}.get(kind, "U")


def join_dtype(a, b):
    order = "bif"
    if a not in order or b not in order:
        return a if a == b else "U"
    return order[max(order.index(a), order.index(b))]


def scalar_dtype(v):
    t = tv(v)
    return {R: "f", I: "i", B: "b", U: "U"}[t.sort]


def to_arr(it, v, dtype=None):
    """Array of a value (no copy for arrays)."""
    if isinstance(v, Arr):
        return v
    if isinstance(v, MArr):
        raise Unsupported("masked array used as plain array")
    if is_scalar(v):
        t = tv(v)
        return mkarr(lambda ix: t, (), scalar_dtype(v))
    if isinstance(v, (PList, tuple, Seq)):
        return array_of(it, v)
    if isinstance(v, str):
        t = strconst(v)
        return mkarr(lambda ix: t, (), "U")
    if isinstance(v, SymStr):
        return mkarr(lambda ix: v.t, (), "U")
    raise Unsupported("array from %r" % (v,))


def array_of(it, v):
    if isinstance(v, PList) and v.head is not None and v.items:
        # the symbolic part followed by the explicit items
        n = v.head[0]
        front, back = array_of(it, PList([], v.head)), array_of(it, PList(list(v.items)))
        if front.ndim != back.ndim:
            raise PyRaise("ValueError", "inhomogeneous shape")
        for x, y in zip(front.shape[1:], back.shape[1:]):
            if not it.decide(tm.eq(x, y)):
                raise PyRaise("ValueError", "inhomogeneous shape")
        dt = join_dtype(front.dtype, back.dtype)
        f, g = front.snap(), back.snap()
        return mkarr(lambda ix: tm.ite(tm.lt(ix[0], n), cast(f(ix), dt), cast(g((tm.sub(ix[0], n),) + tuple(ix[1:])), dt)),
                     (tm.add(n, tm.num(len(v.items))),) + tuple(front.shape[1:]), dt)
    seq = it.iterate(v)
    if isinstance(seq, Seq):
        if True:
            k = tm.fresh("k")
            e = seq.get(k)
            e = to_arr(it, e)
            if any(k in tm.fv(s) for s in e.shape):
                raise Unsupported("array of rows of varying length")
            g = seq.get

            def fn(ix):
                x = g(ix[0])
                if is_scalar(x):
                    return tv(x)
                if isinstance(x, (str, SymStr)):
                    return to_arr(it, x).get(())
                return to_arr(it, x).get(tuple(ix[1:]))
            return mkarr(fn, (seq.n,) + tuple(e.shape), e.dtype)
    if not seq:
        return mkarr(lambda ix: R0, (Z,), "f")
    rows = [to_arr(it, x) for x in seq]
    nd = rows[0].ndim
    if any(r.ndim != nd for r in rows):
        raise PyRaise("ValueError", "inhomogeneous shape")
    for r in rows[1:]:
        for x, y in zip(r.shape, rows[0].shape):
            if not it.decide(tm.eq(x, y)):
                raise PyRaise("ValueError", "inhomogeneous shape")
    dt = rows[0].dtype
    for r in rows[1:]:
        dt = join_dtype(dt, r.dtype)
    snaps = [r.snap() for r in rows]

    def fn(ix):
        i, rest = ix[0], tuple(ix[1:])
        if i.op == "num" and 0 <= tm.val(i) < len(snaps):
            return cast(snaps[int(tm.val(i))](rest), dt)
        t = cast(snaps[-1](rest), dt)
        for j in range(len(snaps) - 2, -1, -1):
            t = tm.ite(tm.eq(i, tm.num(j)), cast(snaps[j](rest), dt), t)
        return t
    return mkarr(fn, (tm.num(len(rows)),) + tuple(rows[0].shape), dt)


def copy_arr(it, a, dtype=None):
    f = a.snap()
    d = dtype or a.dtype
    if d == a.dtype:
        return mkarr(f, a.shape, d)
    return mkarr(lambda ix: cast(f(ix), d), a.shape, d)


def out_scalar(t, dtype="f"):
    return Num(t, True)


def wrap(fn, shape, dtype):
    if len(shape) == 0:
        return Num(fn(()), True)
    return mkarr(fn, shape, dtype)


# ====================================================================== broadcasting
def is_one(it, d):
    return d.op == "num" and tm.val(d) == 1


def bdims(it, d1, d2):
    """Broadcast two dimensions: (dim, stretch1, stretch2)."""
    if d1 is d2:
        return d1, False, False
    if is_one(it, d1):
        return d2, True, False
    if is_one(it, d2):
        return d1, False, True
    if it.decide(tm.eq(d1, d2)):
        return d1, False, False
    if it.decide(tm.eq(d1, ONE)):
        return d2, True, False
    if it.decide(tm.eq(d2, ONE)):
        return d1, False, True
    raise PyRaise("ValueError", "operands could not be broadcast together")


def broadcast(it, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    stretch = [[None] * nd for _ in shapes]
    for d in range(nd):
        cur, users = None, []
        for j, s in enumerate(shapes):
            o = nd - len(s)
            if d < o:
                continue
            x = s[d - o]
            if cur is None:
                cur = x
                stretch[j][d] = False
            else:
                cur2, s1, s2 = bdims(it, cur, x)
                if s1:
                    for u in users:
                        stretch[u][d] = True
                stretch[j][d] = s2
                cur = cur2
            users.append(j)
        out.append(cur)
    maps = []
    for j, s in enumerate(shapes):
        o = nd - len(s)
        st = stretch[j]

        def mp(ix, o=o, st=st):
            return tuple(Z if st[d] else ix[d] for d in range(o, len(ix)))
        maps.append(mp)
    return tuple(out), maps


def nary(it, f, vals, dtype=None):
    """Elementwise application of a term function."""
    masks = [v for v in vals if isinstance(v, MArr)]
    if masks:
        return nary_masked(it, f, vals, dtype)
    arrs = [to_arr(it, v) for v in vals]
    if all(a.ndim == 0 for a in arrs):
        t = f(*[a.get(()) for a in arrs])
        return Num(t, True)
    shape, maps = broadcast(it, [a.shape for a in arrs])
    snaps = [a.snap() for a in arrs]

    def fn(ix):
        return f(*[s(m(ix)) for s, m in zip(snaps, maps)])
    if dtype is None:
        dt = arrs[0].dtype
        for a in arrs[1:]:
            dt = join_dtype(dt, a.dtype)
        dtype = dt
    r = mkarr(fn, shape, dtype)
    sels = [a.extra for a in arrs if a.ndim and a.extra]
    if sels and all(a.ndim == 0 or a.extra and a.ndim == len(shape) and a.extra[1:3] == sels[0][1:3] for a in arrs):
        fulls = [a.extra[4] if a.ndim else (lambda ix, t=a.get(()): t) for a in arrs]
        r.extra = sels[0][:4] + (lambda ix: f(*[g(ix) for g in fulls]),)
    return r


PROBE = tm.sym("?mask", I)


def nary_masked(it, f, vals, dtype=None, domain=None):
    datas = [v.data if isinstance(v, MArr) else v for v in vals]
    ms = [v.mask for v in vals if isinstance(v, MArr)]
    data = nary(it, f, datas, dtype)
    masks = list(ms)
    mask = masks[0]
    for m in masks[1:]:
        mask = nary(it, tm.or_, [mask, m], "b")
    if domain is not None:
        dm = nary(it, domain, datas, "b")
        mask = nary(it, tm.or_, [mask, dm], "b")
    if isinstance(data, Num):
        data = to_arr(it, data)
    if mask.ndim != data.ndim:
        mask = broadcast_to(it, mask, data.shape)
    return MArr(data, mask, data.shape)


def broadcast_to(it, a, shape):
    sh, maps = broadcast(it, [a.shape, shape])
    if len(sh) != len(shape):
        raise PyRaise("ValueError", "cannot broadcast")
    f, m = a.snap(), maps[0]
    return mkarr(lambda ix: f(m(ix)), shape, a.dtype)


def umap(it, f, v, dtype=None):
    return nary(it, f, [v], dtype)


def n2(f):
    """Numeric version of a term function (booleans become 0/1)."""
    return lambda *ts: f(*[numterm(t) for t in ts])


ARITH = {"Add": tm.add, "Sub": tm.sub, "Mult": tm.mul, "Div": tm.div, "Pow": tm.pow_}


def rdiv(a, b):
    return tm.div(a, b)


def arith(it, op, a, b):
    if isinstance(a, (PList, tuple)):
        a = array_of(it, a)
    if isinstance(b, (PList, tuple)):
        b = array_of(it, b)
    if op == "MatMult":
        return matmul(it, a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        f = {"BitAnd": tm.and_, "BitOr": tm.or_, "BitXor": lambda x, y: tm.not_(tm.eq(x, y))}[op]
        return nary(it, f, [a, b], "b")
    if a is None or b is None or isinstance(a, (str, OpaqueStr, PObj)) or isinstance(b, (str, OpaqueStr, PObj)):
        raise PyRaise("TypeError", "unsupported operand")
    if op in ARITH:
        f = n2(ARITH[op])
        dt = "f" if op == "Div" else None
        if op == "Pow":
            da, db = dtype_of_val(a), dtype_of_val(b)
            if da == "i" and db == "i":
                dt = "i"
        if isinstance(a, MArr) or isinstance(b, MArr):
            dom = (lambda x, y: tm.eq(numterm(y), R0)) if op == "Div" else None
            return nary_masked(it, f, [a, b], dt, dom)
        return nary(it, f, [a, b], dt)
    if op in ("FloorDiv", "Mod"):
        return nary(it, lambda x, y: it.term_op(op, numterm(x), numterm(y), True), [a, b])
    raise Unsupported("array operator %s" % op)


def dtype_of_val(v):
    if isinstance(v, Arr):
        return v.dtype
    if isinstance(v, MArr):
        return v.data.dtype
    if is_scalar(v):
        return scalar_dtype(v)
    return "f"


CMP = {"Eq": tm.eq, "NotEq": tm.ne, "Lt": tm.lt, "LtE": tm.le,
       "Gt": lambda x, y: tm.lt(y, x), "GtE": lambda x, y: tm.le(y, x)}


def cmp(it, op, a, b):
    if isinstance(a, (PList, tuple)):
        a = array_of(it, a)
    if isinstance(b, (PList, tuple)):
        b = array_of(it, b)
    if a is None or b is None:
        x = a if b is None else b
        if op in ("Eq", "NotEq"):
            return umap(it, lambda t: tm.FALSE if op == "Eq" else tm.TRUE, x, "b")
        raise PyRaise("TypeError", "unorderable")
    f = CMP[op]

    def g(x, y):
        if U in (x.sort, y.sort):
            return f(x, y)
        if x.sort == B and y.sort == B and op in ("Eq", "NotEq"):
            return f(x, y)
        return f(numterm(x), numterm(y))
    return nary(it, g, [a, b], "b")


# ====================================================================== indexing
def norm_index(it, t, n):
    """Index in [0, n) or IndexError."""
    if t.op == "num" and tm.val(t) < 0:
        t2 = tm.add(t, n)
        if not it.decide(tm.le(Z, t2)):
            raise PyRaise("IndexError", "index out of bounds")
        return t2
    if not it.decide(tm.le(Z, t)):
        t2 = tm.add(t, n)
        if not it.decide(tm.le(Z, t2)):
            raise PyRaise("IndexError", "index out of bounds")
        return t2
    if not it.decide(tm.lt(t, n)):
        raise PyRaise("IndexError", "index out of bounds")
    return t


def slice_bounds(it, s, n):
    """(start, stop, step) with 0 <= start <= stop <= n for step > 0."""
    step = ONE if s.step is None else intterm(it, s.step)
    if step.op != "num":
        raise Unsupported("symbolic slice step")
    st = int(tm.val(step))
    if st == 0:
        raise PyRaise("ValueError", "slice step cannot be zero")

    def clip(v, lo_default):
        if v is None:
            return lo_default
        t = intterm(it, v)
        if t.op == "num" and tm.val(t) < 0 or not (t.op == "num") and not it.decide(tm.le(Z, t)):
            t2 = tm.add(t, n)
            return t2 if it.decide(tm.le(Z, t2)) else Z
        return t if it.decide(tm.le(t, n)) else n
    if st > 0:
        lo, hi = clip(s.lo, Z), clip(s.hi, n)
        if not it.decide(tm.le(lo, hi)):
            hi = lo
        return lo, hi, step
    if s.lo is None and s.hi is None:
        return tm.sub(n, ONE), tm.num(-1), step
    # negative step with bounds
    if s.lo is None:
        lo = tm.sub(n, ONE)
    else:
        t = intterm(it, s.lo)
        if not it.decide(tm.le(Z, t)):
            t = tm.add(t, n)
        lo = t if it.decide(tm.lt(t, n)) else tm.sub(n, ONE)
    if s.hi is None:
        hi = tm.num(-1)
    else:
        t = intterm(it, s.hi)
        if not it.decide(tm.le(Z, t)):
            t = tm.add(t, n)
        hi = t
    if not it.decide(tm.le(hi, lo)):
        hi = lo
    return lo, hi, step


def index_ok(it, a, i):
    """a[i] for an index known to be in range."""
    return view(it, a, [("int", i)] + [("slice", Z, s, 1, s) for s in a.shape[1:]])


def view(it, a, spec):
    """Basic-indexing view; spec entries consume dimensions of a (except 'new')."""
    shape = []
    for s in spec:
        if s[0] == "slice":
            shape.append(s[4])
        elif s[0] == "new":
            shape.append(ONE)
    trivial = all(s[0] == "slice" and s[1] is Z and s[3] == 1 and s[4] is d
                  for s, d in zip(spec, a.shape)) and len(spec) == len(a.shape)
    if not shape:
        ix = tuple(s[1] for s in spec)
        return Num(a.get(ix), True)
    if trivial:
        return Arr(a.buf, a.shape, a.imap, a.inv, a.extra)

    def fwd(ix):
        out, j = [], 0
        for s in spec:
            if s[0] == "int":
                out.append(s[1])
            elif s[0] == "new":
                j += 1
            else:
                x = ix[j]
                j += 1
                if s[3] != 1:
                    x = tm.mul(tm.num(s[3]), x)
                out.append(tm.add(s[1], x))
        return tuple(out)

    def back(oix):
        c, out, d = tm.TRUE, [], 0
        for s in spec:
            if s[0] == "new":
                out.append(Z)
                continue
            x = oix[d]
            d += 1
            if s[0] == "int":
                c = tm.and_(c, tm.eq(x, s[1]))
            else:
                lo, st, n = s[1], s[3], s[4]
                rel = tm.sub(x, lo)
                if st == 1:
                    full = lo is Z and n is a.shape[d - 1]
                    if not full:
                        c = tm.and_(c, tm.le(lo, x), tm.lt(rel, n))
                    out.append(rel)
                elif st == -1:
                    rel = tm.sub(lo, x)
                    c = tm.and_(c, tm.le(Z, rel), tm.lt(rel, n))
                    out.append(rel)
                else:
                    q = tm.idiv(rel, tm.num(st))
                    c = tm.and_(c, tm.eq(tm.imod(rel, tm.num(st)), Z), tm.le(Z, q), tm.lt(q, n))
                    out.append(q)
        return c, tuple(out)
    return compose(a, shape, fwd, back)


def compose(a, shape, fwd, back):
    imap0, inv0 = a.imap, a.inv

    def imap(ix):
        o = fwd(ix)
        return imap0(o) if imap0 else o
    if inv0 is None or back is None:
        inv = None
    else:
        def inv(b):
            c1, o = inv0(b)
            c2, n = back(o)
            return tm.and_(c1, c2), n
    return Arr(a.buf, shape, imap, inv)


def parse_index(it, a, ix):
    """Normalise an index expression to a list of per-dimension entries."""
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = [PList(x) if isinstance(x, tuple) else x for x in ix]
    n_used = 0
    for x in ix:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, Arr) and x.dtype == "b":
            n_used += x.ndim
        else:
            n_used += 1
    if n_used > a.ndim:
        raise PyRaise("IndexError", "too many indices for array")
    out = []
    if Ellipsis in [x for x in ix if x is Ellipsis]:
        i = [j for j, x in enumerate(ix) if x is Ellipsis][0]
        ix = ix[:i] + [FULL] * (a.ndim - n_used) + ix[i + 1:]
    else:
        ix = ix + [FULL] * (a.ndim - n_used)
    return ix


def index(it, a, ix):
    ix = parse_index(it, a, ix)
    if any(isinstance(x, (Arr, PList)) and not (isinstance(x, Arr) and x.ndim == 0) for x in ix):
        return fancy(it, a, ix)
    spec, d = [], 0
    for x in ix:
        if x is None:
            spec.append(("new",))
            continue
        n = a.shape[d]
        d += 1
        if isinstance(x, SliceV):
            lo, hi, st = slice_bounds(it, x, n)
            st = int(tm.val(st))
            spec.append(("slice", lo, hi, st, slice_len(it, lo, hi, st)))
        elif isinstance(x, bool) or isinstance(x, Num) and x.t.sort == B:
            raise Unsupported("boolean scalar index")
        elif is_scalar(x) or isinstance(x, Arr):
            if is_scalar(x) and numterm(tv(x)).sort != I:
                raise PyRaise("IndexError", "only integers are valid indices")
            spec.append(("int", norm_index(it, intterm(it, x), n)))
        else:
            raise PyRaise("IndexError", "invalid index")
    return view(it, a, spec)


def slice_len(it, lo, hi, st):
    if st == 1:
        return it.ctx.rw(tm.sub(hi, lo))
    if st == -1:
        return it.ctx.rw(tm.sub(lo, hi))
    if st > 1:
        return tm.idiv(tm.add(tm.sub(hi, lo), tm.num(st - 1)), tm.num(st))
    return tm.idiv(tm.add(tm.sub(lo, hi), tm.num(-st - 1)), tm.num(-st))


def fancy(it, a, ix):
    """Advanced indexing (copy)."""
    adv = [j for j, x in enumerate(ix) if isinstance(x, (Arr, PList)) and not (isinstance(x, Arr) and x.ndim == 0)]
    if len(adv) != 1:
        # several integer arrays: elementwise
        if all(isinstance(x, (Arr, PList)) or is_scalar(x) for x in ix) and len(ix) == a.ndim:
            arrs = [to_arr(it, x) for x in ix]
            f = a.snap()
            return nary(it, lambda *t: f(tuple(t)), arrs, a.dtype)
        raise Unsupported("mixed advanced indexing")
    j = adv[0]
    x = to_arr(it, ix[j])
    if x.dtype == "b":
        if x.ndim == 1:
            idx = where_index(it, x)
        else:
            raise Unsupported("multi-dimensional boolean index")
        if not it.decide(tm.eq(x.shape[0], a.shape[j])):
            raise PyRaise("IndexError", "boolean index did not match")
    else:
        idx = x
        if idx.dtype != "i":
            if not (size(idx).op == "num" and tm.val(size(idx)) == 0):
                raise PyRaise("IndexError", "arrays used as indices must be of integer type")
        n = a.shape[j]
        if idx.ndim == 1 and x.dtype == "i":
            k = tm.fresh("k")
            e = idx.get((k,))
            inb = tm.all_(Z, idx.shape[0], lambda q: tm.and_(tm.le(Z, idx.get((q,))), tm.lt(idx.get((q,)), n)))
            if not it.decide(inb):
                neg = tm.all_(Z, idx.shape[0], lambda q: tm.and_(tm.le(tm.neg(n), idx.get((q,))), tm.lt(idx.get((q,)), n)))
                if not it.decide(neg):
                    raise PyRaise("IndexError", "index out of bounds")
                raise Unsupported("negative indices in an index array")
    rest = [y for q, y in enumerate(ix) if q != j]
    if any(not (isinstance(y, SliceV) and y.lo is None and y.hi is None and y.step is None) for y in rest):
        # apply the basic part first
        spec2 = list(ix)
        spec2[j] = FULL
        if any(y is None for y in ix) or any(is_scalar(y) for y in rest if not isinstance(y, SliceV)) and j > 0:
            raise Unsupported("mixed basic and advanced indexing")
        b = index(it, a, tuple(spec2))
        return fancy(it, b, [idx if q == j else FULL for q in range(b.ndim)])
    f, g = a.snap(), idx.snap()
    nd = idx.ndim
    shape = tuple(a.shape[:j]) + tuple(idx.shape) + tuple(a.shape[j + 1:])

    def fn(q):
        return f(tuple(q[:j]) + (g(tuple(q[j:j + nd])),) + tuple(q[j + nd:]))
    r = mkarr(fn, shape, a.dtype)
    if x.dtype == "b":
        m = x.snap()
        r.extra = ("sel", j, m((PROBE,)).id, (m, a.shape[j]), f)     # the entries of f at which m holds
    return r


def where_index(it, c):
    """Index array of the true entries of a 1-D boolean array."""
    n = c.shape[0]
    f = c.snap()
    if n.op == "num" and int(tm.val(n)) <= 12:
        out = []
        for i in range(int(tm.val(n))):
            if it.decide(f((tm.num(i),))):
                out.append(i)
        if not out:
            return mkarr(lambda ix: Z, (Z,), "i")
        return array_of(it, PList(out))
    cnt = tm.sum_(Z, n, lambda k: tm.ite(f((k,)), ONE, Z))
    nm = "w!%d" % next(tm._fresh)
    it.assume(tm.le(Z, cnt))
    it.assume(tm.le(cnt, n))
    w = lambda i: tm.app(nm, i, sort=I)
    some = tm.ex_(Z, n, lambda k: f((k,)))
    if it.decide(some):
        it.assume(tm.le(ONE, cnt))
        it.assume(tm.le(Z, w(Z)))
        it.assume(tm.lt(w(Z), n))
        it.assume(f((w(Z),)))
        it.assume(tm.all_(Z, w(Z), lambda k: tm.not_(f((k,)))))
        last = w(tm.sub(cnt, ONE))
        it.assume(tm.le(Z, last))
        it.assume(tm.lt(last, n))
        it.assume(f((last,)))
        it.assume(tm.all_(tm.add(last, ONE), n, lambda k: tm.not_(f((k,)))))
        it.assume(tm.all_(Z, cnt, lambda k: tm.and_(tm.le(Z, w(k)), tm.lt(w(k), n), f((w(k),)))))
    else:
        it.assume(tm.eq(cnt, Z))
    return mkarr(lambda ix: w(ix[0]), (cnt,), "i")


# ---------------------------------------------------------------------- writing
def write(it, a, v, cond=None):
    """a[...] = v elementwise (through the view), restricted to cond(ix) when given."""
    if a.inv is None and a.imap is not None:
        raise Unsupported("write through a view that cannot be inverted")
    val = to_arr(it, v)
    if val.ndim > a.ndim:
        # leading unit dimensions are dropped
        extra = val.ndim - a.ndim
        for d in val.shape[:extra]:
            if not it.decide(tm.eq(d, ONE)):
                raise PyRaise("ValueError", "could not broadcast input array")
        f0 = val.snap()
        val = mkarr(lambda ix: f0((Z,) * extra + tuple(ix)), val.shape[extra:], val.dtype)
    maps = []
    off = a.ndim - val.ndim
    st = []
    for d, n in enumerate(val.shape):
        tgt = a.shape[off + d]
        if n is tgt:
            st.append(False)
        elif is_one(it, n):
            st.append(True)
        elif it.decide(tm.eq(n, tgt)):
            st.append(False)
        elif it.decide(tm.eq(n, ONE)):
            st.append(True)
        else:
            raise PyRaise("ValueError", "could not broadcast input array")
    f = val.snap()
    old = a.buf.fn
    inv = a.inv
    dt = a.buf.dtype

    def fn(b):
        c, ix = inv(b) if inv else (tm.TRUE, b)
        if cond is not None:
            c = tm.and_(c, cond(ix))
        if c is tm.FALSE:
            return old(b)
        x = f(tuple(Z if s else i for s, i in zip(st, ix[off:])))
        x = cast(x, dt) if dt in "fib" else x
        if c is tm.TRUE:
            return x
        o = old(b)
        if x.sort == B and o.sort != B:
            x = numterm(x)
        return tm.ite(c, x, o)
    it.set_buf(a.buf, fn)


def setindex(it, a, ix, v):
    p = parse_index(it, a, ix)
    adv = [j for j, x in enumerate(p) if isinstance(x, (Arr, PList)) and not (isinstance(x, Arr) and x.ndim == 0)]
    if not adv:
        if a.ndim == 1 and len(p) == 1 and is_scalar(p[0]) or all(is_scalar(x) or isinstance(x, Arr) for x in p):
            spec = []
            for x, n in zip(p, a.shape):
                if is_scalar(x) and numterm(tv(x)).sort != I:
                    raise PyRaise("IndexError", "only integers are valid indices")
                spec.append(norm_index(it, intterm(it, x), n))
            tgt = spec

            def cond(q):
                return tm.and_(*[tm.eq(i, t) for i, t in zip(q, tgt)])
            val = v
            if isinstance(v, (Arr, PList, tuple)):
                arr = to_arr(it, v)
                if arr.ndim:
                    if not it.decide(tm.eq(size(arr), ONE)):
                        raise PyRaise("ValueError", "setting an array element with a sequence")
                    val = Num(flat_get(arr, Z), True)
            if not (is_scalar(val) or isinstance(val, (Arr, str, SymStr))):
                raise PyRaise("TypeError", "array element")
            write(it, a, val, cond)
            return
        w = index(it, a, ix)
        if isinstance(w, Num):
            raise Unsupported("element write")
        write(it, w, v)
        return
    if len(adv) > 1:
        raise Unsupported("write with several index arrays")
    j = adv[0]
    x = to_arr(it, p[j])
    if x.dtype == "b":
        if x.ndim > 1:
            if x.ndim == a.ndim and len(p) == 1:
                m = x.snap()
                if not is_scalar(v):
                    raise Unsupported("masked write of an array")
                write(it, a, v, lambda q: m(tuple(q)))
                return
            raise Unsupported("multi-dimensional boolean write")
        if not it.decide(tm.eq(x.shape[0], a.shape[j])):
            raise PyRaise("IndexError", "boolean index did not match")
        m = x.snap()
        b = a
        rest = [y if q != j else FULL for q, y in enumerate(p)]
        if any(not (isinstance(y, SliceV) and y.lo is None and y.hi is None) for y in rest):
            # restrict other axes first, the mask axis keeps its place counting basic entries
            pos = sum(1 for y in rest[:j] if not is_scalar(y))
            b = index(it, a, tuple(rest))
        else:
            pos = j
        if not is_scalar(v):
            arr = to_arr(it, v)
            if arr.ndim and arr.extra and arr.extra[1:3] == (pos, m((PROBE,)).id) and arr.ndim == b.ndim:
                full = arr.extra[4]           # b[m] = w[m]
                write(it, b, mkarr(full, b.shape, arr.dtype), lambda q: m((q[pos],)))
                return
            if arr.ndim and not (it.decide(tm.eq(size(arr), ONE))):
                if arr.ndim != 1 or b.ndim != 1:
                    raise Unsupported("masked write of a matrix")
                cnt = tm.sum_(Z, x.shape[0], lambda k: tm.ite(m((k,)), ONE, Z))
                if not it.decide(tm.eq(arr.shape[0], cnt)):
                    raise PyRaise("ValueError", "NumPy boolean array indexing assignment: sizes differ")
                g = arr.snap()
                write(it, b, mkarr(lambda q: g((tm.sum_(Z, q[0], lambda k: tm.ite(m((k,)), ONE, Z)),)), b.shape, arr.dtype),
                      lambda q: m((q[0],)))
                return
            v = Num(flat_get(arr, Z), True)
        write(it, b, v, lambda q: m((q[pos],)))
        return
    # integer array: a[idx] = scalar
    if a.ndim == 1 and is_scalar(v):
        g, n = x.snap(), x.shape[0]
        write(it, a, v, lambda q: tm.ex_(Z, n, lambda k: tm.eq(g((k,)), q[0])))
        return
    raise Unsupported("write with an index array")


def flat_get(a, i):
    ix = unflatten(a.shape, i)
    return a.get(ix)


def unflatten(shape, p):
    if len(shape) == 0:
        return ()
    if len(shape) == 1:
        return (p,)
    nz = [d for d, s in enumerate(shape) if not (s.op == "num" and tm.val(s) == 1)]
    if len(nz) <= 1:
        return tuple(p if nz and d == nz[0] else Z for d in range(len(shape)))
    out = []
    rest = p
    for d in range(len(shape) - 1):
        inner = ONE
        for s in shape[d + 1:]:
            inner = tm.mul(inner, s)
        out.append(tm.idiv(rest, inner))
        rest = tm.imod(rest, inner)
    out.append(rest)
    return tuple(out)


def flatten_ix(shape, ix):
    p = Z
    for s, i in zip(shape, ix):
        p = tm.add(tm.mul(p, s), i)
    return p


def reshape(it, a, new):
    new = list(new)
    total = size(a)
    neg = [i for i, s in enumerate(new) if s.op == "num" and tm.val(s) == -1]
    if len(neg) > 1:
        raise PyRaise("ValueError", "can only specify one unknown dimension")
    if neg:
        rest = ONE
        for i, s in enumerate(new):
            if i != neg[0]:
                rest = tm.mul(rest, s)
        if rest.op == "num" and tm.val(rest) == 1:
            new[neg[0]] = total
        else:
            q = divide_out(it, total, rest)
            new[neg[0]] = q
    ns = ONE
    for s in new:
        ns = tm.mul(ns, s)
    if not it.decide(tm.eq(ns, total)):
        raise PyRaise("ValueError", "cannot reshape array")
    new = tuple(new)
    old = tuple(a.shape)
    o1 = [(d, s) for d, s in enumerate(old) if not is_one(it, s)]
    n1 = [(d, s) for d, s in enumerate(new) if not is_one(it, s)]
    if len(o1) == len(n1) and all(x[1] is y[1] or it.ctx.entails(tm.eq(x[1], y[1])) for x, y in zip(o1, n1)):
        def fwd(ix):
            out = [Z] * len(old)
            for (do, _), (dn, _) in zip(o1, n1):
                out[do] = ix[dn]
            return tuple(out)

        def back(oix):
            out = [Z] * len(new)
            for (do, _), (dn, _) in zip(o1, n1):
                out[dn] = oix[do]
            return tm.TRUE, tuple(out)
        return compose(a, new, fwd, back)
    return compose(a, new, lambda ix: unflatten(old, flatten_ix(new, ix)),
                   lambda oix: (tm.TRUE, unflatten(new, flatten_ix(old, oix))))


def divide_out(it, total, d):
    """total / d for integers known to divide."""
    p = tm._ipoly(total)
    q = tm._ipoly(d)
    if len(p) == 1 and len(q) == 1:
        (m, c), = p.items()
        (m2, c2), = q.items()
        r = list(m)
        ok = True
        for x in m2:
            if x in r:
                r.remove(x)
            else:
                ok = False
        if ok and (c / c2).denominator == 1:
            return tm._from_ipoly({tuple(r): c / c2})
    return tm.idiv(total, d)


def transpose(a, perm):
    inv = [0] * len(perm)
    for i, p in enumerate(perm):
        inv[p] = i
    return compose(a, tuple(a.shape[p] for p in perm),
                   lambda ix: tuple(ix[inv[d]] for d in range(len(perm))),
                   lambda o: (tm.TRUE, tuple(o[p] for p in perm)))


def norm_axis(it, ax, nd):
    ax = it.concrete_int(ax)
    if ax is None:
        raise Unsupported("symbolic axis")
    if not -nd <= ax < nd:
        raise PyRaise("AxisError" if False else "ValueError", "axis out of bounds")
    return ax % nd


# ====================================================================== reductions
def reduce_(it, a, axis, binder, dtype=None, keepdims=False):
    """Reduction along axes with a binder (lo, hi, f) -> term."""
    if isinstance(a, MArr):
        raise Unsupported("reduction of a masked array")
    a = to_arr(it, a)
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, (tuple, PList)):
        axes = [norm_axis(it, x, a.ndim) for x in it.concrete_items(axis)]
    else:
        axes = [norm_axis(it, axis, a.ndim)]
    f = a.snap()
    shape = [s for d, s in enumerate(a.shape) if d not in axes]
    nd = a.ndim

    def fn(ix):
        def go(k, cur):
            if k == len(axes):
                full, j = [], 0
                for d in range(nd):
                    if d in cur:
                        full.append(cur[d])
                    else:
                        full.append(ix[j])
                        j += 1
                return f(tuple(full))
            d = axes[k]
            return binder(Z, a.shape[d], lambda i: go(k + 1, {**cur, d: i}))
        return go(0, {})
    if keepdims:
        kshape = [ONE if d in axes else s for d, s in enumerate(a.shape)]
        return mkarr(lambda ix: fn(tuple(x for d, x in enumerate(ix) if d not in axes)), kshape, dtype or a.dtype)
    return wrap(fn, tuple(shape), dtype or a.dtype)


def kd(kwargs):
    k = kwargs.get("keepdims", False)
    return bool(k)


def sum_arr(it, a, axis=None, keepdims=False):
    if isinstance(a, MArr):
        f = nary(it, lambda m, d: tm.ite(m, R0, numterm(d)), [a.mask, a.data])
        return sum_arr(it, f, axis)
    a = to_arr(it, a)
    dt = "i" if a.dtype == "b" else a.dtype
    zero = Z if dt == "i" else R0
    if a.extra and (a.ndim == 1 or axis is not None and norm_axis(it, axis, a.ndim) == a.extra[1]):
        (m, n), full, j = a.extra[3], a.extra[4], a.extra[1]          # sum over the entries of a mask
        b = mkarr(lambda ix: tm.ite(m((ix[j],)), numterm(full(ix)), zero), a.shape[:j] + (n,) + a.shape[j + 1:], dt)
        return sum_arr(it, b, axis, keepdims)

    def sm(lo, hi, f):
        return tm.sum_(lo, hi, lambda i: numterm(f(i)))
    if dt == "i":
        def sm(lo, hi, f):
            t = tm.sum_(lo, hi, lambda i: numterm(f(i)))
            if t.op == "num":
                return tm.num(int(tm.val(t)))
            return t
    return reduce_(it, a, axis, sm, dt, keepdims)


@npf("sum")
def np_sum(it, args, kwargs):
    a, axis, dtype, out, keepdims = getargs(args, kwargs, ["a", "axis", "dtype", "out", "keepdims"], [None, None, None, False])
    if dtype is not None and dtype_val(dtype, "f") != "f" and dtype_of_val(to_arr(it, a)) != dtype_val(dtype, "f"):
        raise Unsupported("dtype of np.sum")
    if out is not None:
        raise Unsupported("positional out")
    return sum_arr(it, a, axis, bool(keepdims))


def mean_arr(it, a, axis=None):
    a = to_arr(it, a)
    s = sum_arr(it, a, axis)
    n = size(a) if axis is None else a.shape[norm_axis(it, axis, a.ndim)]
    return nary(it, lambda x: tm.div(x, n), [s], "f")


@npf("mean", "average")
def np_mean(it, args, kwargs):
    if "weights" in kwargs:
        a, axis, w = getargs(args, kwargs, ["a", "axis", "weights"], [None, None])
        if w is not None:
            num = sum_arr(it, arith(it, "Mult", to_arr(it, a) if not is_scalar(a) else a, w), axis)
            den = sum_arr(it, w, None)
            return it.binop("Div", num, den)
    a, axis = getargs(args, kwargs, ["a", "axis"], [None])
    return mean_arr(it, a, axis)


@npf("prod", "product")
def np_prod(it, args, kwargs):
    a, axis, dtype = getargs(args, kwargs, ["a", "axis", "dtype"], [None, None])
    return reduce_(it, to_arr(it, a), axis, lambda lo, hi, f: tm.prod_(lo, hi, lambda i: numterm(f(i))))


def minmax(it, a, axis, op, keepdims=False):
    a = to_arr(it, a)
    axes = range(a.ndim) if axis is None else [norm_axis(it, axis, a.ndim)]
    for d in axes:
        if not it.decide(tm.lt(Z, a.shape[d])):
            raise PyRaise("ValueError", "zero-size array to reduction operation")
    binder = tm.max_ if op == "max" else tm.min_
    # NaN in the data propagates to the result
    f0 = a.snap()
    probe = f0(tuple(tm.fresh("p") for _ in a.shape))
    if probe.sp and tm.isnan(probe) is not tm.FALSE:
        flag = reduce_(it, nary(it, tm.isnan, [a], "b"), axis, lambda lo, hi, f: tm.ex_(lo, hi, f), "b")
        clean = nary(it, lambda t: tm.split_nan(t)[1], [a])
        m = reduce_(it, clean, axis, binder)
        return nary(it, tm.mnan, [flag, m], "f")
    return reduce_(it, a, axis, binder, None, keepdims)


def _minmax_initial(it, op, args, kwargs):
    """max/min with initial= and where=."""
    kw = dict(kwargs)
    init, where = kw.pop("initial", None), kw.pop("where", None)
    a, axis, out, keepdims = getargs(args, kw, ["a", "axis", "out", "keepdims"], [None, None, False])
    a = to_arr(it, a)
    if init is None or axis is not None and a.ndim != 1 or keepdims:
        raise Unsupported("initial/where of max")
    f2 = tm.max2 if op == "max" else tm.min2
    i0 = numterm(tv(init))
    if where is not None:
        a = nary(it, lambda w, t: tm.ite(cast(w, "b"), numterm(t), i0), [where, a])
    if not it.decide(tm.lt(Z, size(a))):
        return Num(i0, True)
    m = minmax(it, ravel(it, a) if a.ndim != 1 else a, None, op)
    return nary(it, n2(_nanprop(f2)), [m, init])


@npf("max", "amax")
def np_max(it, args, kwargs):
    if "initial" in kwargs:
        return _minmax_initial(it, "max", args, kwargs)
    a, axis, out, keepdims = getargs(args, kwargs, ["a", "axis", "out", "keepdims"], [None, None, False])
    return minmax(it, a, axis, "max", bool(keepdims))


@npf("min", "amin")
def np_min(it, args, kwargs):
    if "initial" in kwargs:
        return _minmax_initial(it, "min", args, kwargs)
    a, axis, out, keepdims = getargs(args, kwargs, ["a", "axis", "out", "keepdims"], [None, None, False])
    return minmax(it, a, axis, "min", bool(keepdims))


@npf("ptp")
def np_ptp(it, args, kwargs):
    a, axis = getargs(args, kwargs, ["a", "axis"], [None])
    return it.binop("Sub", minmax(it, a, axis, "max"), minmax(it, a, axis, "min"))


def reduce_any(it, a):
    if isinstance(a, Num):
        return a.t
    r = any_(it, a)
    return tv(r)


def unselect(it, a, other):
    if a.extra and a.ndim == 1:
        (m, n), full = a.extra[3], a.extra[4]
        return mkarr(lambda ix: tm.ite(m((ix[0],)), cast(full(ix), "b"), other), (n,), "b")
    return a


def any_(it, a, axis=None):
    a = unselect(it, to_arr(it, a), tm.FALSE)
    return reduce_(it, nary(it, lambda t: cast(t, "b"), [a], "b"), axis, tm.ex_, "b")


def all_(it, a, axis=None):
    a = unselect(it, to_arr(it, a), tm.TRUE)
    return reduce_(it, nary(it, lambda t: cast(t, "b"), [a], "b"), axis, tm.all_, "b")


@npf("any", "sometrue")
def np_any(it, args, kwargs):
    a, axis = getargs(args, kwargs, ["a", "axis"], [None])
    return any_(it, a, axis)


@npf("all", "alltrue")
def np_all(it, args, kwargs):
    a, axis = getargs(args, kwargs, ["a", "axis"], [None])
    return all_(it, a, axis)


def argext(it, a, axis, op):
    a = to_arr(it, a)
    if a.ndim > 1 and axis is None:
        a = ravel(it, a)
    if a.ndim != 1:
        raise Unsupported("argmin along an axis")
    n = a.shape[0]
    if not it.decide(tm.lt(Z, n)):
        raise PyRaise("ValueError", "attempt to get argmin of an empty sequence")
    f = a.snap()
    g = lambda i: numterm(f((i,)))
    lt = (lambda x, y: tm.lt(x, y)) if op == "min" else (lambda x, y: tm.lt(y, x))
    if n.op == "num":
        best = 0
        for i in range(1, int(tm.val(n))):
            if it.decide(lt(g(tm.num(i)), g(tm.num(best)))):
                best = i
        return Num(tm.num(best), True)
    r = tm.fresh("arg", I)
    it.assume(tm.le(Z, r))
    it.assume(tm.lt(r, n))
    it.assume(tm.all_(Z, n, lambda k: tm.not_(lt(g(k), g(r)))))
    it.assume(tm.all_(Z, r, lambda k: lt(g(r), g(k))))
    return Num(r, True)


@npf("argmin")
def np_argmin(it, args, kwargs):
    a, axis = getargs(args, kwargs, ["a", "axis"], [None])
    return argext(it, a, axis, "min")


@npf("argmax")
def np_argmax(it, args, kwargs):
    a, axis = getargs(args, kwargs, ["a", "axis"], [None])
    return argext(it, a, axis, "max")


@npf("cumsum")
def np_cumsum(it, args, kwargs):
    a, axis, dtype = getargs(args, kwargs, ["a", "axis", "dtype"], [None, None])
    a = to_arr(it, a)
    if axis is None:
        a = ravel(it, a)
        ax = 0
    else:
        ax = norm_axis(it, axis, a.ndim)
    f = a.snap()

    def fn(ix):
        return tm.sum_(Z, tm.add(ix[ax], ONE), lambda k: numterm(f(tuple(ix[:ax]) + (k,) + tuple(ix[ax + 1:]))))
    return mkarr(fn, a.shape, "i" if a.dtype == "b" else a.dtype)


@npf("diff")
def np_diff(it, args, kwargs):
    a, n, axis = getargs(args, kwargs, ["a", "n", "axis"], [1, -1])
    a = to_arr(it, a)
    ax = norm_axis(it, axis, a.ndim)
    f = a.snap()

    def fn(ix):
        up = tuple(ix[:ax]) + (tm.add(ix[ax], ONE),) + tuple(ix[ax + 1:])
        return tm.sub(f(up), f(ix))
    sh = list(a.shape)
    sh[ax] = tm.sub(sh[ax], ONE)
    if not it.decide(tm.le(Z, sh[ax])):
        sh[ax] = Z
    return mkarr(fn, sh, a.dtype)


def same_kind(r, out):
    """The casting rule of results written into an existing array: float to integer (or anything to bool) is refused."""
    k = dtype_of_val(r) if not isinstance(r, Arr) else r.dtype
    if out.dtype in "bi" and k in "bif" and "bif".index(k) > "bif".index(out.dtype):
        raise PyRaise("TypeError", "cannot cast the result to the type of the output")


def into(it, fn, args, kwargs):
    """f(..., out=x): the result is written into x, which is returned."""
    out = kwargs["out"]
    o = out[0] if isinstance(out, tuple) else out
    if not isinstance(o, Arr):
        raise PyRaise("TypeError", "return arrays must be of ArrayType")
    if kwargs.get("where") is not None:
        return fn.fn(it, args, kwargs)
    del kwargs["out"]
    r = fn.fn(it, args, kwargs)
    if isinstance(r, MArr):
        raise Unsupported("out= of a masked operation")
    sh = r.shape if isinstance(r, Arr) else ()
    if len(sh) > o.ndim:
        raise PyRaise("ValueError", "non-broadcastable output operand")
    same_kind(r, o)
    write(it, o, r)
    return o


# ====================================================================== ufuncs
def ufunc(name, f, dtype=None, nin=1, domain=None):
    def call(it, args, kwargs):
        where = kwargs.pop("where", None)
        out = kwargs.pop("out", None)
        if kwargs.get("dtype") is not None and dtype_val(kwargs["dtype"], "f") != "f":
            raise Unsupported("dtype of np.%s" % name)
        kwargs.pop("dtype", None)
        if kwargs.get("casting") not in (None, "same_kind"):
            raise Unsupported("casting of np.%s" % name)
        kwargs.pop("casting", None)
        if kwargs:
            raise Unsupported("keyword %s of np.%s" % (list(kwargs), name))
        if len(args) > nin:
            out = args[nin]
            args = args[:nin]
        if len(args) != nin:
            raise PyRaise("TypeError", "np.%s takes %d arguments" % (name, nin))
        for a in args:
            if a is None or isinstance(a, (str, OpaqueStr)):
                raise PyRaise("TypeError", "ufunc input")
        if isinstance(out, tuple):
            out = out[0]
        if any(isinstance(a, MArr) for a in args):
            return nary_masked(it, f, args, dtype, domain)
        if where is not None and out is not None:
            r = nary(it, lambda w, o, *xs: tm.ite(w, f(*xs), numterm(o)), [where, out] + list(args), dtype or "f")
            write(it, out, r)
            return out
        if where is not None:
            if is_scalar(where) and tv(where) is tm.TRUE:
                pass
            else:
                nm = "uninit!%d" % next(tm._fresh)
                r = nary(it, lambda w, *xs: tm.ite(w, f(*xs), tm.app(nm)), [where] + list(args), dtype or "f")
                return r
        r = nary(it, f, args, dtype)
        if out is not None:
            same_kind(r, out)
            write(it, out, r)
            return out
        return r
    NUMPY[name] = Builtin("np." + name, call)
    return call


ufunc("exp", n2(tm.exp), "f")
ufunc("log", n2(tm.log), "f")
ufunc("log2", n2(lambda x: tm.div(tm.log(x), tm.log(tm.num(2)))), "f")
ufunc("log10", n2(lambda x: tm.div(tm.log(x), tm.log(tm.num(10)))), "f")
ufunc("log1p", n2(lambda x: tm.log(tm.add(R1, x))), "f")
ufunc("expm1", n2(lambda x: tm.sub(tm.exp(x), R1)), "f")
ufunc("sqrt", n2(tm.sqrt), "f")
ufunc("square", n2(lambda x: tm.mul(x, x)))
ufunc("abs", n2(tm.abs_))
ufunc("absolute", n2(tm.abs_))
ufunc("fabs", n2(tm.abs_), "f")
ufunc("cos", n2(tm.cos), "f")
ufunc("sin", n2(tm.sin), "f")
ufunc("negative", n2(tm.neg))
ufunc("positive", n2(lambda x: x))
ufunc("reciprocal", n2(lambda x: tm.div(R1, x)), "f")
ufunc("floor", n2(tm.floor), "f")
ufunc("ceil", n2(tm.ceil), "f")
ufunc("trunc", n2(truncate), "f")
ufunc("sign", n2(lambda x: tm.ite(tm.lt(R0, x), R1, tm.ite(tm.lt(x, R0), tm.num(Fraction(-1)), R0))))
ufunc("isnan", n2(tm.isnan), "b")
ufunc("isinf", n2(tm.isinf), "b")
ufunc("isfinite", n2(lambda x: tm.not_(tm.or_(tm.isnan(x), tm.isinf(x)))), "b")
ufunc("logical_not", lambda x: tm.not_(cast(x, "b")), "b")
ufunc("logical_and", lambda x, y: tm.and_(cast(x, "b"), cast(y, "b")), "b", 2)
ufunc("logical_or", lambda x, y: tm.or_(cast(x, "b"), cast(y, "b")), "b", 2)
ufunc("add", n2(tm.add), None, 2)
ufunc("subtract", n2(tm.sub), None, 2)
ufunc("multiply", n2(tm.mul), None, 2)
ufunc("divide", n2(tm.div), "f", 2, lambda x, y: tm.eq(numterm(y), R0))
ufunc("true_divide", n2(tm.div), "f", 2, lambda x, y: tm.eq(numterm(y), R0))
ufunc("power", n2(tm.pow_), None, 2)
ufunc("float_power", n2(tm.pow_), "f", 2)
def _nanprop(f):
    def g(x, y):
        fx, vx = tm.split_nan(x)
        fy, vy = tm.split_nan(y)
        return tm.mnan(tm.or_(fx, fy), f(vx, vy))
    return g


ufunc("maximum", n2(_nanprop(tm.max2)), None, 2)
ufunc("minimum", n2(_nanprop(tm.min2)), None, 2)
ufunc("fmax", n2(tm.max2), None, 2)
ufunc("fmin", n2(tm.min2), None, 2)
ufunc("mod", lambda x, y: _mod(x, y), None, 2)
ufunc("remainder", lambda x, y: _mod(x, y), None, 2)
ufunc("floor_divide", lambda x, y: _fdiv(x, y), None, 2)
for _n, _o in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"),
               ("greater", "Gt"), ("greater_equal", "GtE")):
    ufunc(_n, n2(CMP[_o]), "b", 2)
def rint(x):
    """Nearest integer, halves to even."""
    if x.sort == I:
        return x
    f = tm.floor(x)
    d, h = tm.sub(x, f), tm.num(Fraction(1, 2))
    even = tm.mul(tm.num(2), tm.floor(tm.mul(h, tm.add(f, ONE))))
    return tm.ite(tm.lt(d, h), f, tm.ite(tm.lt(h, d), tm.add(f, ONE), even))


ufunc("rint", n2(rint), "f")
ufunc("cbrt", n2(lambda x: tm.ite(tm.le(R0, x), tm.pow_(x, tm.num(Fraction(1, 3))), tm.neg(tm.pow_(tm.neg(x), tm.num(Fraction(1, 3)))))), "f")
ufunc("exp2", n2(lambda x: tm.pow_(tm.num(Fraction(2)), x)), "f")
ufunc("tan", n2(lambda x: tm.div(tm.sin(x), tm.cos(x))), "f")
ufunc("radians", n2(lambda x: tm.div(tm.mul(x, tm.sym("pi")), tm.num(180))), "f")
NUMPY["deg2rad"] = NUMPY["radians"]
ufunc("logical_xor", lambda x, y: tm.or_(tm.and_(cast(x, "b"), tm.not_(cast(y, "b"))), tm.and_(tm.not_(cast(x, "b")), cast(y, "b"))), "b", 2)


@npf("round", "around", "round_")
def np_round(it, args, kwargs):
    a, dec = getargs(args, kwargs, ["a", "decimals"], [0])
    d = intterm(it, dec)
    if d.op != "num":
        raise Unsupported("round to a symbolic number of decimals")
    t = tm.num(Fraction(10) ** int(tm.val(d)))
    dt = dtype_of_val(a)
    if dt in ("i", "b"):
        if tm.val(d) < 0:
            raise Unsupported("round of integers to tens")
        return a
    return nary(it, n2(lambda x: rint(x) if d is Z else tm.div(rint(tm.mul(x, t)), t)), [a], "f")


@npf("take")
def np_take(it, args, kwargs):
    a, ix, axis, mode = getargs(args, kwargs, ["a", "indices", "axis", "mode"], [None, "raise"])
    a = to_arr(it, a)
    if mode != "raise":
        raise Unsupported("take with a mode")
    if axis is None:
        a, ax = ravel(it, a) if a.ndim != 1 else a, 0
    else:
        ax = norm_axis(it, axis, a.ndim)
    return index(it, a, tuple([FULL] * ax + [ix if is_scalar(ix) else to_arr(it, ix)]))


@npf("compress", "extract")
def np_compress(it, args, kwargs):
    c, a, axis = getargs(args, kwargs, ["condition", "a", "axis"], [None])
    a = to_arr(it, a)
    if a.ndim != 1:
        raise Unsupported("compress")
    return index(it, a, (nary(it, lambda t: cast(t, "b"), [c], "b"),))


@npf("var")
def np_var(it, args, kwargs):
    a, axis, ddof = getargs(args, kwargs, ["a", "axis", "ddof"], [None, 0])
    a = to_arr(it, a)
    if axis is not None and a.ndim != 1:
        raise Unsupported("variance along an axis")
    m = mean_arr(it, a)
    sq = nary(it, n2(lambda x, y: tm.mul(tm.sub(x, y), tm.sub(x, y))), [a, m], "f")
    return nary(it, n2(lambda s, n, d: tm.div(s, tm.sub(n, d))), [sum_arr(it, sq), Num(size(a)), ddof], "f")


@npf("std")
def np_std(it, args, kwargs):
    return nary(it, n2(tm.sqrt), [np_var(it, args, kwargs)], "f")


@npf("roll")
def np_roll(it, args, kwargs):
    a, sh, axis = getargs(args, kwargs, ["a", "shift", "axis"], [None])
    a, s = to_arr(it, a), intterm(it, sh)
    if axis is None and a.ndim != 1:
        raise Unsupported("roll of a flattened array")
    ax = 0 if axis is None else norm_axis(it, axis, a.ndim)
    f, n = a.snap(), a.shape[ax]
    return mkarr(lambda ix: f(tuple(ix[:ax]) + (tm.imod(tm.sub(ix[ax], s), n),) + tuple(ix[ax + 1:])), a.shape, a.dtype)


@npf("select")
def np_select(it, args, kwargs):
    cs, xs, dflt = getargs(args, kwargs, ["condlist", "choicelist", "default"], [0])
    cs, xs = list(it.concrete_items(cs)), list(it.concrete_items(xs))
    r = dflt
    for c, x in list(zip(cs, xs))[::-1]:
        r = nary(it, lambda c, p, q: tm.ite(cast(c, "b"), numterm(p), numterm(q)), [c, x, r],
                 join_dtype(dtype_of_val(x), dtype_of_val(r)))
    return r


@npf("putmask")
def np_putmask(it, args, kwargs):
    a, m, v = getargs(args, kwargs, ["a", "mask", "values"])
    if not is_scalar(v):
        raise Unsupported("putmask of an array")
    setindex(it, a, to_arr(it, m), v)


@npf("cumprod")
def np_cumprod(it, args, kwargs):
    a, axis, dtype = getargs(args, kwargs, ["a", "axis", "dtype"], [None, None])
    a = to_arr(it, a)
    if a.ndim != 1:
        raise Unsupported("cumprod")
    f = a.snap()
    return mkarr(lambda ix: tm.prod_(Z, tm.add(ix[0], ONE), lambda k: numterm(f((k,)))), a.shape, "i" if a.dtype == "b" else a.dtype)


ufunc("hypot", n2(lambda x, y: tm.sqrt(tm.add(tm.mul(x, x), tm.mul(y, y)))), "f", 2)


def _mod(x, y):
    x, y = numterm(x), numterm(y)
    if x.sort == I and y.sort == I:
        return tm.imod(x, y)
    return tm.sub(x, tm.mul(y, tm.floor(tm.div(x, y))))


def _fdiv(x, y):
    x, y = numterm(x), numterm(y)
    if x.sort == I and y.sort == I:
        return tm.idiv(x, y)
    return tm.floor(tm.div(x, y))


@npf("clip")
def np_clip(it, args, kwargs):
    a, lo, hi = getargs(args, kwargs, ["a", "a_min", "a_max"], [None, None])
    r = a
    if lo is not None:
        r = nary(it, n2(tm.max2), [r, lo])
    if hi is not None:
        r = nary(it, n2(tm.min2), [r, hi])
    return r


@npf("where")
def np_where(it, args, kwargs):
    if len(args) == 1:
        c = to_arr(it, args[0])
        if c.ndim != 1:
            raise Unsupported("np.where on a multi-dimensional array")
        return (where_index(it, nary(it, lambda t: cast(t, "b"), [c], "b")),)
    c, x, y = args
    ax, ay = (dtype_of_val(v) if not isinstance(v, (PList, tuple)) else to_arr(it, v).dtype for v in (x, y))
    return nary(it, lambda c, p, q: tm.ite(cast(c, "b"), numterm(p), numterm(q)), [c, x, y], join_dtype(ax, ay))


@npf("nonzero", "flatnonzero", "argwhere")
def np_nonzero(it, args, kwargs):
    c = to_arr(it, args[0])
    if c.ndim != 1:
        raise Unsupported("nonzero on a multi-dimensional array")
    return (where_index(it, nary(it, lambda t: cast(t, "b"), [c], "b")),)


NUMPY["flatnonzero"] = Builtin("np.flatnonzero", lambda it, a, k: np_nonzero(it, a, k)[0])
del NUMPY["argwhere"]


@npf("count_nonzero")
def np_count(it, args, kwargs):
    a = to_arr(it, args[0])
    return sum_arr(it, nary(it, lambda t: numterm(cast(t, "b")), [a], "i"))


@npf("searchsorted")
def np_searchsorted(it, args, kwargs):
    a, v, side = getargs(args, kwargs, ["a", "v", "side"], ["left"])
    a = to_arr(it, a)
    if not is_scalar(v):
        raise Unsupported("searchsorted of an array")
    f, n = a.snap(), a.shape[0]
    x = tv(v)
    srt = tm.all_(ONE, n, lambda k: tm.le(f((tm.sub(k, ONE),)), f((k,))))
    if not it.ctx.prove(srt):
        raise Unsupported("searchsorted on data not known to be sorted")
    r = tm.fresh("ss", I)
    it.assume(tm.le(Z, r))
    it.assume(tm.le(r, n))
    below = (lambda y: tm.lt(y, x)) if side == "left" else (lambda y: tm.le(y, x))
    it.assume(tm.all_(Z, r, lambda k: below(f((k,)))))
    it.assume(tm.all_(r, n, lambda k: tm.not_(below(f((k,))))))
    it.assume(tm.or_(tm.eq(r, Z), below(f((tm.sub(r, ONE),)))))
    it.assume(tm.or_(tm.eq(r, n), tm.not_(below(f((r,))))))
    return Num(r, True)


@npf("isclose")
def np_isclose(it, args, kwargs):
    a, b, rtol, atol = getargs(args, kwargs, ["a", "b", "rtol", "atol"], [Num(tm.num(1e-5)), Num(tm.num(1e-8))])
    return nary(it, lambda x, y, r, s: tm.le(tm.abs_(tm.sub(x, y)), tm.add(s, tm.mul(r, tm.abs_(y)))), [a, b, rtol, atol], "b")


@npf("allclose")
def np_allclose(it, args, kwargs):
    return all_(it, np_isclose(it, args, kwargs))


@npf("array_equal")
def np_array_equal(it, args, kwargs):
    a, b = (to_arr(it, x) for x in args[:2])
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not it.decide(tm.eq(x, y)):
            return False
    return all_(it, cmp(it, "Eq", a, b))


@npf("nan_to_num")
def np_nan_to_num(it, args, kwargs):
    if len(args) > 1 or set(kwargs) - {"nan", "copy"} or not it.truthy(kwargs.get("copy", True)):
        raise Unsupported("nan_to_num")
    nan = kwargs.get("nan", Num(R0))

    def f(x, n):
        fl, v = tm.split_nan(x)
        return tm.ite(fl, n, v)
    return nary(it, f, [args[0], nan])


# ====================================================================== creation
def _shape_dtype(it, args, kwargs, extra=()):
    s, d = getargs([a for a in args], {k: v for k, v in kwargs.items() if k != "order"}, ["shape", "dtype"], [None])
    sh = dims(it, s)
    for x in sh:
        if not it.decide(tm.le(Z, x)):
            raise PyRaise("ValueError", "negative dimensions are not allowed")
    return sh, dtype_val(d, "f")


@npf("zeros")
def np_zeros(it, args, kwargs):
    sh, d = _shape_dtype(it, args, kwargs)
    return const_arr({"f": R0, "i": Z, "b": tm.FALSE}[d], sh, d)


@npf("ones")
def np_ones(it, args, kwargs):
    sh, d = _shape_dtype(it, args, kwargs)
    return const_arr({"f": R1, "i": ONE, "b": tm.TRUE}[d], sh, d)


@npf("empty")
def np_empty(it, args, kwargs):
    sh, d = _shape_dtype(it, args, kwargs)
    nm = "uninit!%d" % next(tm._fresh)
    return mkarr(lambda ix: tm.app(nm, *ix, sort={"f": R, "i": I, "b": B}[d]), sh, d)


@npf("full")
def np_full(it, args, kwargs):
    s, v, d = getargs(args, kwargs, ["shape", "fill_value", "dtype"], [None])
    sh = dims(it, s)
    for x in sh:
        if not it.decide(tm.le(Z, x)):
            raise PyRaise("ValueError", "negative dimensions are not allowed")
    d = dtype_val(d, dtype_of_val(v))
    if not is_scalar(v):
        a = copy_arr(it, broadcast_to(it, to_arr(it, v), sh), d)
        return a
    t = cast(tv(v), d)
    return const_arr(t, sh, d)


def _like(const):
    def f(it, args, kwargs):
        a = to_arr(it, args[0])
        kwargs = dict(kwargs)
        d = dtype_val(kwargs.get("dtype", args[1] if len(args) > 1 else None), a.dtype)
        sh = dims(it, kwargs["shape"]) if kwargs.get("shape") is not None else a.shape
        if const is None:
            nm = "uninit!%d" % next(tm._fresh)
            return mkarr(lambda ix: tm.app(nm, *ix, sort={"f": R, "i": I, "b": B}[d]), sh, d)
        return const_arr({"f": tm.num(Fraction(const)), "i": tm.num(const), "b": tm.TRUE if const else tm.FALSE}[d], sh, d)
    return f


NUMPY["zeros_like"] = Builtin("np.zeros_like", _like(0))
NUMPY["ones_like"] = Builtin("np.ones_like", _like(1))
NUMPY["empty_like"] = Builtin("np.empty_like", _like(None))


@npf("full_like")
def np_full_like(it, args, kwargs):
    a, v, d = getargs(args, kwargs, ["a", "fill_value", "dtype"], [None])
    a = to_arr(it, a)
    d = dtype_val(d, a.dtype)
    t = cast(tv(v), d)
    return const_arr(t, a.shape, d)


def make_array(it, v, dtype=None, copy=True):
    if isinstance(v, MArr):
        return MArr(v.data, v.mask, v.shape)
    a = to_arr(it, v)
    d = dtype_val(dtype, a.dtype)
    if isinstance(v, Arr) and (copy or d != a.dtype):
        return copy_arr(it, a, d)
    if d != a.dtype:
        return copy_arr(it, a, d)
    return a


@npf("array")
def np_array(it, args, kwargs):
    v, dtype, copy, ndmin = getargs(args, {k: x for k, x in kwargs.items() if k not in ("order", "subok")},
                                    ["object", "dtype", "copy", "ndmin"], [None, True, 0])
    a = make_array(it, v, dtype, copy is not False)
    if ndmin:
        while a.ndim < ndmin:
            a = index(it, a, (None, Ellipsis))
    return a


@npf("asarray", "asanyarray", "ascontiguousarray", "asfarray", "asarray_chkfinite", "require")
def np_asarray(it, args, kwargs):
    v, dtype = getargs(args, {k: x for k, x in kwargs.items() if k not in ("order",)}, ["a", "dtype"], [None])
    return make_array(it, v, dtype, False)


@npf("copy")
def np_copy(it, args, kwargs):
    a = args[0]
    if isinstance(a, MArr):
        return MArr(copy_arr(it, a.data), copy_arr(it, a.mask), a.shape)
    a = to_arr(it, a)
    if a.ndim == 0:
        return a
    return copy_arr(it, a)


@npf("arange")
def np_arange(it, args, kwargs):
    dtype = kwargs.pop("dtype", None)
    names = ["start", "stop", "step"]
    if len(args) == 1 and not kwargs:
        args = [0] + list(args)
    if len(args) == 0 and set(kwargs) == {"stop"}:
        args, kwargs = [0, kwargs["stop"]], {}
    a, b, s = getargs(args, kwargs, names, [1])
    ta, tb, ts = (numterm(tv(x)) for x in (a, b, s))
    isint = ta.sort == I and tb.sort == I and ts.sort == I
    d = dtype_val(dtype, "i" if isint else "f")
    diff = tm.sub(tb, ta)
    if ts.op == "num" and tm.val(ts) == 1:
        i = as_int(it.ctx.rw(diff))
        n = i if i is not None else tm.ceil(diff)
    elif isint and ts.op == "num":
        st = int(tm.val(ts))
        if st > 0:
            n = tm.idiv(tm.add(diff, tm.num(st - 1)), ts)
        elif st == -1:
            n = tm.neg(diff)
        else:
            raise Unsupported("arange with negative step")
    else:
        n = tm.ceil(tm.div(diff, ts))
    if not it.decide(tm.le(Z, n)):
        n = Z
    return mkarr(lambda ix: cast(tm.add(ta, tm.mul(ts, ix[0])), d) if d == "i" else tm.add(ta, tm.mul(ts, ix[0])), (n,), d)


@npf("linspace")
def np_linspace(it, args, kwargs):
    a, b, n, endpoint, retstep, dtype = getargs(args, kwargs, ["start", "stop", "num", "endpoint", "retstep", "dtype"],
                                                [50, True, False, None])
    ta, tb, tn = numterm(tv(a)), numterm(tv(b)), intterm(it, n)
    d = dtype_val(dtype, "f")
    if not it.decide(tm.le(Z, tn)):
        raise PyRaise("ValueError", "Number of samples must be non-negative")
    if it.truthy(endpoint):
        if it.decide(tm.eq(tn, ONE)):
            fn = lambda ix: cast(ta, d)
            step = None
        else:
            step = tm.div(tm.sub(tb, ta), tm.sub(tn, ONE))
            fn = lambda ix: cast(tm.add(ta, tm.mul(ix[0], step)), d)
    else:
        step = tm.div(tm.sub(tb, ta), tn)
        fn = lambda ix: cast(tm.add(ta, tm.mul(ix[0], step)), d)
    arr = mkarr(fn, (tn,), d)
    if it.truthy(retstep):
        return (arr, Num(step, True))
    return arr


@npf("eye", "identity")
def np_eye(it, args, kwargs):
    N, M, dt = getargs(args, kwargs, ["N", "M", "dtype"], [None, None])
    n = intterm(it, N)
    d = dtype_val(dt, "f")
    return mkarr(lambda ix: cast(tm.ite(tm.eq(ix[0], ix[1]), R1, R0), d), (n, n if M is None else intterm(it, M)), d)


@npf("diag")
def np_diag(it, args, kwargs):
    a = to_arr(it, args[0])
    if len(args) > 1 or kwargs:
        raise Unsupported("diag with offset")
    f = a.snap()
    if a.ndim == 1:
        n = a.shape[0]
        return mkarr(lambda ix: tm.ite(tm.eq(ix[0], ix[1]), numterm(f((ix[0],))), R0), (n, n), a.dtype)
    return mkarr(lambda ix: f((ix[0], ix[0])), (a.shape[0],), a.dtype)


NUMPY["diagonal"] = NUMPY["diag"]


@npf("trace")
def np_trace(it, args, kwargs):
    a = to_arr(it, args[0])
    f = a.snap()
    return Num(tm.sum_(Z, a.shape[0], lambda i: f((i, i))), True)


@npf("meshgrid")
def np_meshgrid(it, args, kwargs):
    indexing = kwargs.get("indexing", "xy")
    arrs = [to_arr(it, a) for a in args]
    sh = [size(a) for a in arrs]
    nd = len(arrs)
    perm = list(range(nd))
    if indexing == "xy" and nd >= 2:
        perm[0], perm[1] = 1, 0
    shape = [sh[p] for p in perm]
    out = []
    for j, a in enumerate(arrs):
        f = ravel(it, a).snap()
        pos = perm.index(j)
        out.append(mkarr(lambda ix, f=f, pos=pos: f((ix[pos],)), shape, a.dtype))
    return PList(out)


@npf("indices")
def np_indices(it, args, kwargs):
    sh = dims(it, args[0])

    def fn(ix):
        t = ix[len(sh)]
        for d in range(len(sh) - 2, -1, -1):
            t = tm.ite(tm.eq(ix[0], tm.num(d)), ix[d + 1], t)
        return t
    return mkarr(fn, (tm.num(len(sh)),) + tuple(sh), "i")


# ====================================================================== shape manipulation
def ravel(it, a):
    if a.ndim == 1:
        return Arr(a.buf, a.shape, a.imap, a.inv, a.extra)
    return reshape(it, a, (size(a),)) if a.ndim else reshape0(a)


def reshape0(a):
    t = a.get(())
    return mkarr(lambda ix: t, (ONE,), a.dtype)


@npf("ravel")
def np_ravel(it, args, kwargs):
    return ravel(it, to_arr(it, args[0]))


@npf("reshape")
def np_reshape(it, args, kwargs):
    a, s, order = getargs(args, {("newshape" if k == "shape" else k): v for k, v in kwargs.items()},
                          ["a", "newshape", "order"], ["C"])
    if order != "C":
        raise Unsupported("reshape order")
    return reshape(it, to_arr(it, a), dims(it, s))


@npf("transpose")
def np_transpose(it, args, kwargs):
    a = to_arr(it, args[0])
    axes = args[1] if len(args) > 1 else kwargs.get("axes")
    if axes is None:
        return transpose(a, list(range(a.ndim))[::-1])
    return transpose(a, [norm_axis(it, x, a.ndim) for x in it.concrete_items(axes)])


@npf("swapaxes")
def np_swapaxes(it, args, kwargs):
    a = to_arr(it, args[0])
    i, j = (norm_axis(it, x, a.ndim) for x in args[1:3])
    p = list(range(a.ndim))
    p[i], p[j] = p[j], p[i]
    return transpose(a, p)


@npf("moveaxis")
def np_moveaxis(it, args, kwargs):
    a = to_arr(it, args[0])
    s, d = (norm_axis(it, x, a.ndim) for x in args[1:3])
    p = [x for x in range(a.ndim) if x != s]
    p.insert(d, s)
    return transpose(a, p)


@npf("squeeze")
def np_squeeze(it, args, kwargs):
    a = to_arr(it, args[0])
    axis = args[1] if len(args) > 1 else kwargs.get("axis")
    if axis is not None:
        ax = norm_axis(it, axis, a.ndim)
        if not it.decide(tm.eq(a.shape[ax], ONE)):
            raise PyRaise("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
        axes = [ax]
    else:
        axes = [d for d, s in enumerate(a.shape) if it.decide(tm.eq(s, ONE))]
    return view(it, a, [("int", Z) if d in axes else ("slice", Z, s, 1, s) for d, s in enumerate(a.shape)])


@npf("expand_dims")
def np_expand(it, args, kwargs):
    a, axis = getargs(args, kwargs, ["a", "axis"])
    a = to_arr(it, a)
    ax = norm_axis(it, axis, a.ndim + 1)
    ix = [FULL] * a.ndim
    ix.insert(ax, None)
    return index(it, a, tuple(ix))


@npf("atleast_1d")
def np_atleast1(it, args, kwargs):
    a = to_arr(it, args[0])
    return a if a.ndim else reshape0(a)


@npf("atleast_2d")
def np_atleast2(it, args, kwargs):
    a = to_arr(it, args[0])
    if a.ndim >= 2:
        return a
    if a.ndim == 1:
        return index(it, a, (None, FULL))
    return index(it, reshape0(a), (None, FULL))


@npf("real")
def np_real(it, args, kwargs):
    return args[0]


@npf("copyto")
def np_copyto(it, args, kwargs):
    d, x, w = getargs(args, kwargs, ["dst", "src", "where"], [True])
    if w is True:
        write(it, d, x)
    else:
        write(it, d, np_where(it, [to_arr(it, w), x, d], {}))


@npf("broadcast_to")
def np_broadcast_to(it, args, kwargs):
    return broadcast_to(it, to_arr(it, args[0]), dims(it, args[1]))


def concat(it, arrs, axis):
    """Concatenation of a Python list of arrays along an axis."""
    nd = arrs[0].ndim
    if nd == 0:
        raise PyRaise("ValueError", "zero-dimensional arrays cannot be concatenated")
    for a in arrs:
        if a.ndim != nd:
            raise PyRaise("ValueError", "all the input arrays must have same number of dimensions")
    ax = norm_axis(it, axis, nd)
    for a in arrs[1:]:
        for d in range(nd):
            if d != ax and not it.decide(tm.eq(a.shape[d], arrs[0].shape[d])):
                raise PyRaise("ValueError", "all the input array dimensions must match")
    dt = arrs[0].dtype
    for a in arrs[1:]:
        dt = join_dtype(dt, a.dtype)
    offs, o = [], Z
    for a in arrs:
        offs.append(o)
        o = tm.add(o, a.shape[ax])
    snaps = [a.snap() for a in arrs]
    live = [i for i, a in enumerate(arrs) if not (a.shape[ax].op == "num" and tm.val(a.shape[ax]) == 0)]
    ctx = it.ctx

    def fn(ix):
        x = ix[ax]
        t = None
        for i in reversed(live):
            j = tuple(ix[:ax]) + (tm.sub(x, offs[i]),) + tuple(ix[ax + 1:])
            if t is None:
                t = cast(snaps[i](j), dt) if dt in "fib" else snaps[i](j)
            else:
                c = tm.lt(x, offs[i + 1] if i + 1 < len(offs) else o)
                if c is tm.FALSE:
                    continue
                e = snaps[i](j)
                t = tm.ite(c, cast(e, dt) if dt in "fib" else e, t)
        return t if t is not None else R0
    sh = list(arrs[0].shape)
    sh[ax] = o
    return mkarr(fn, sh, dt)


def concat_seq(it, seq, axis):
    """Concatenation of a symbolic list of arrays along the first axis."""
    from .loops import nonneg_prefix
    k = tm.fresh("k")
    probe = to_arr(it, seq.get(k))
    if probe.ndim == 0:
        raise PyRaise("ValueError", "zero-dimensional arrays cannot be concatenated")
    ax = norm_axis(it, axis, probe.ndim)
    for d, s in enumerate(probe.shape):
        if d != ax and k in tm.fv(s):
            raise Unsupported("concatenation of arrays with varying shape")
    if not it.decide(tm.lt(Z, seq.n)):
        raise PyRaise("ValueError", "need at least one array to concatenate")
    g = seq.get
    ln = lambda j: to_arr(it, g(j)).shape[ax]
    off = lambda j: tm.sum_(Z, j, ln)
    nonneg_prefix(it, ln, seq.n)

    def fn(ix):
        x = ix[ax]

        def body(j):
            lo = off(j)
            e = to_arr(it, g(j)).get(tuple(ix[:ax]) + (tm.sub(x, lo),) + tuple(ix[ax + 1:]))
            return tm.ite(tm.and_(tm.le(lo, x), tm.lt(x, tm.add(lo, ln(j)))), numterm(e), R0)
        return tm.sum_(Z, seq.n, body)
    sh = list(probe.shape)
    sh[ax] = off(seq.n)
    return mkarr(fn, sh, probe.dtype)


@npf("concatenate")
def np_concatenate(it, args, kwargs):
    s, axis, dtype = getargs(args, kwargs, ["arrays", "axis", "dtype"], [0, None])
    seq = it.iterate(s)
    if isinstance(seq, Seq):
        return concat_seq(it, seq, axis)
    if not seq:
        raise PyRaise("ValueError", "need at least one array to concatenate")
    arrs = [to_arr(it, a) for a in seq]
    if axis is None:
        arrs = [ravel(it, a) for a in arrs]
        axis = 0
    r = concat(it, arrs, axis)
    return copy_arr(it, r, dtype_val(dtype, r.dtype)) if dtype is not None else r


@npf("hstack")
def np_hstack(it, args, kwargs):
    seq = it.iterate(args[0])
    if isinstance(seq, Seq):
        return concat_seq(it, seq, 0 if to_arr(it, seq.get(tm.fresh("k"))).ndim <= 1 else 1)
    arrs = [to_arr(it, a) for a in seq]
    if not arrs:
        raise PyRaise("ValueError", "need at least one array to concatenate")
    arrs = [reshape0(a) if a.ndim == 0 else a for a in arrs]
    return concat(it, arrs, 0 if arrs[0].ndim == 1 else 1)


@npf("vstack", "row_stack")
def np_vstack(it, args, kwargs):
    seq = it.iterate(args[0])
    if isinstance(seq, Seq):
        probe = to_arr(it, seq.get(tm.fresh("k")))
        if probe.ndim < 2:
            return array_of(it, seq) if probe.ndim == 1 else index(it, array_of(it, seq), (FULL, None))
        return concat_seq(it, seq, 0)
    arrs = [np_atleast2(it, [a], {}) for a in seq]
    return concat(it, arrs, 0)


@npf("column_stack")
def np_column_stack(it, args, kwargs):
    seq = it.iterate(args[0])
    if isinstance(seq, Seq):
        probe = to_arr(it, seq.get(tm.fresh("k")))
        if probe.ndim == 1:
            return transpose(array_of(it, seq), [1, 0])
        return concat_seq(it, seq, 1)
    arrs = []
    for a in it.concrete_items(args[0]):
        a = to_arr(it, a)
        arrs.append(index(it, a, (FULL, None)) if a.ndim == 1 else a)
    return concat(it, arrs, 1)


@npf("stack")
def np_stack(it, args, kwargs):
    s, axis = getargs(args, kwargs, ["arrays", "axis"], [0])
    a = array_of(it, s)
    ax = norm_axis(it, axis, a.ndim)
    if ax == 0:
        return a
    p = list(range(1, a.ndim))
    p.insert(ax, 0)
    return transpose(a, p)


@npf("append")
def np_append(it, args, kwargs):
    a, b, axis = getargs(args, kwargs, ["arr", "values", "axis"], [None])
    a, b = to_arr(it, a), to_arr(it, b)
    if axis is None:
        a = ravel(it, a) if a.ndim else reshape0(a)
        b = ravel(it, b) if b.ndim else reshape0(b)
        return concat(it, [a, b], 0)
    return concat(it, [a, b], axis)


@npf("insert")
def np_insert(it, args, kwargs):
    a, pos, v, axis = getargs(args, kwargs, ["arr", "obj", "values", "axis"], [None])
    a = to_arr(it, a)
    if axis is not None and a.ndim != 1:
        raise Unsupported("insert along an axis")
    a = ravel(it, a)
    n = a.shape[0]
    if isinstance(pos, (tuple, PList)):
        items = it.concrete_items(pos)
        if len(items) != 1:
            raise Unsupported("insert at several positions")
        pos = items[0]
    if isinstance(pos, Arr):
        if pos.ndim == 1 and it.decide(tm.eq(pos.shape[0], ONE)):
            pos = Num(pos.get((Z,)), True)
    p = intterm(it, pos)
    if not it.decide(tm.le(Z, p)):
        p = tm.add(p, n)
        if not it.decide(tm.le(Z, p)):
            raise PyRaise("IndexError", "index is out of bounds")
    if not it.decide(tm.le(p, n)):
        raise PyRaise("IndexError", "index is out of bounds")
    if not is_scalar(v):
        v = to_arr(it, v)
        if v.ndim and not it.decide(tm.eq(size(v), ONE)):
            raise Unsupported("insert of several values")
        v = Num(flat_get(v, Z), True)
    x = cast(numterm(tv(v)), a.dtype)
    f = a.snap()

    def fn(ix):
        i = ix[0]
        return tm.ite(tm.lt(i, p), f((i,)), tm.ite(tm.eq(i, p), x, f((tm.sub(i, ONE),))))
    return mkarr(fn, (tm.add(n, ONE),), a.dtype)


@npf("delete")
def np_delete(it, args, kwargs):
    a, pos, axis = getargs(args, kwargs, ["arr", "obj", "axis"], [None])
    a = to_arr(it, a)
    if axis is not None and a.ndim != 1:
        if not is_scalar(pos):
            raise Unsupported("delete several rows")
        ax = norm_axis(it, axis, a.ndim)
        n, f = a.shape[ax], a.snap()
        p = norm_index(it, intterm(it, pos), n)
        up = lambda ix: tuple(ix[:ax]) + (tm.add(ix[ax], ONE),) + tuple(ix[ax + 1:])
        return mkarr(lambda ix: tm.ite(tm.lt(ix[ax], p), f(tuple(ix)), f(up(ix))),
                     a.shape[:ax] + (tm.sub(n, ONE),) + a.shape[ax + 1:], a.dtype)
    a = ravel(it, a)
    n = a.shape[0]
    f = a.snap()
    if isinstance(pos, (PList, tuple, Arr, PSet)) and not (isinstance(pos, Arr) and pos.ndim == 0):
        if isinstance(pos, Arr) and pos.dtype == "b":
            keep = nary(it, tm.not_, [pos], "b")
            return fancy(it, a, [keep])
        items = it.concrete_items(pos)
        idx = []
        for x in items:
            t = norm_index(it, intterm(it, x), n)
            if t.op != "num":
                if n.op == "num":
                    t = tm.num(it.split_int(t, 0, int(tm.val(n))))
                else:
                    raise Unsupported("delete at symbolic positions")
            idx.append(int(tm.val(t)))
        if n.op != "num":
            raise Unsupported("delete several entries of an array of symbolic length")
        keep = [i for i in range(int(tm.val(n))) if i not in idx]
        if not keep:
            return mkarr(lambda ix: R0, (Z,), a.dtype)
        return fancy(it, a, [array_of(it, PList(keep))])
    p = norm_index(it, intterm(it, pos), n)
    return mkarr(lambda ix: tm.ite(tm.lt(ix[0], p), f((ix[0],)), f((tm.add(ix[0], ONE),))), (tm.sub(n, ONE),), a.dtype)


@npf("tile")
def np_tile(it, args, kwargs):
    a = to_arr(it, args[0])
    reps = dims(it, args[1])
    if a.ndim == 1 and len(reps) == 1:
        f, n = a.snap(), a.shape[0]
        return mkarr(lambda ix: f((tm.imod(ix[0], n),)), (tm.mul(n, reps[0]),), a.dtype)
    if a.ndim == 1 and len(reps) == 2 and is_one(it, reps[1]):
        f = a.snap()
        return mkarr(lambda ix: f((ix[1],)), (reps[0], a.shape[0]), a.dtype)
    if a.ndim == 2 and len(reps) == 2 and is_one(it, reps[0]) and is_one(it, a.shape[1]):
        f = a.snap()
        return mkarr(lambda ix: f((ix[0], Z)), (a.shape[0], reps[1]), a.dtype)
    raise Unsupported("np.tile")


@npf("repeat")
def np_repeat(it, args, kwargs):
    a, r, axis = getargs(args, kwargs, ["a", "repeats", "axis"], [None])
    a = to_arr(it, a)
    if not is_scalar(r):
        r = to_arr(it, r)
        n = a.shape[0]
        if a.ndim == 1 and n.op == "num" and r.ndim == 1 and r.shape[0].op == "num":
            parts = [const_arr(a.get((tm.num(i),)), (numterm(r.get((tm.num(i),))),), a.dtype)
                     for i in range(int(tm.val(n)))]
            return concat(it, parts, 0)
        raise Unsupported("np.repeat with array counts")
    k = intterm(it, r)
    if a.ndim == 0:
        t = a.get(())
        return const_arr(t, (k,), a.dtype)
    if axis is None:
        a = ravel(it, a)
        axis = 0
    ax = norm_axis(it, axis, a.ndim)
    f = a.snap()
    sh = list(a.shape)
    one = is_one(it, sh[ax])
    sh[ax] = tm.mul(sh[ax], k)
    return mkarr(lambda ix: f(tuple(ix[:ax]) + (Z if one else tm.idiv(ix[ax], k),) + tuple(ix[ax + 1:])), sh, a.dtype)


@npf("flip", "flipud")
def np_flip(it, args, kwargs):
    a = to_arr(it, args[0])
    axis = args[1] if len(args) > 1 else kwargs.get("axis", 0 if a.ndim == 1 else None)
    if axis is None:
        raise Unsupported("flip of all axes")
    ax = norm_axis(it, axis, a.ndim)
    ix = [FULL] * a.ndim
    ix[ax] = SliceV(None, None, -1)
    return index(it, a, tuple(ix))


@npf("hsplit")
def np_hsplit(it, args, kwargs):
    a, s = getargs(args, kwargs, ["ary", "indices_or_sections"], [])
    a = to_arr(it, a)
    if a.ndim == 0:
        raise PyRaise("ValueError", "hsplit only works on arrays of 1 or more dimensions")
    return np_split(it, [a, s, 1 if a.ndim > 1 else 0], {})


@npf("vsplit")
def np_vsplit(it, args, kwargs):
    a, s = getargs(args, kwargs, ["ary", "indices_or_sections"], [])
    a = to_arr(it, a)
    if a.ndim < 2:
        raise PyRaise("ValueError", "vsplit only works on arrays of 2 or more dimensions")
    return np_split(it, [a, s, 0], {})


@npf("array_split")
def np_array_split(it, args, kwargs):
    a, s, axis = getargs(args, kwargs, ["ary", "indices_or_sections", "axis"], [0])
    a = to_arr(it, a)
    if is_scalar(s):
        k = it.concrete_int(s)
        n = a.shape[norm_axis(it, axis, a.ndim)]
        if k is None or not it.ctx.prove(tm.eq(tm.mul(divide_out(it, n, tm.num(k)), tm.num(k)), n)):
            raise Unsupported("split into parts of different size")
    return np_split(it, [a, s, axis], {})


@npf("split")
def np_split(it, args, kwargs):
    a, s, axis = getargs(args, kwargs, ["ary", "indices_or_sections", "axis"], [0])
    a = to_arr(it, a)
    ax = norm_axis(it, axis, a.ndim)
    if is_scalar(s):
        k = it.concrete_int(s)
        if k is None:
            raise Unsupported("split into a symbolic number of parts")
        n = a.shape[ax]
        q = divide_out(it, n, tm.num(k))
        if not it.decide(tm.eq(tm.mul(q, tm.num(k)), n)):
            raise PyRaise("ValueError", "array split does not result in an equal division")
        cuts = [tm.mul(q, tm.num(i)) for i in range(1, k)]
    else:
        cuts = [intterm(it, x) for x in it.concrete_items(s)]
    out, prev = [], None
    for c in cuts + [None]:
        ix = [FULL] * a.ndim
        ix[ax] = SliceV(None if prev is None else Num(prev), None if c is None else Num(c), None)
        out.append(index(it, a, tuple(ix)))
        prev = c
    return PList(out)


@npf("sort")
def np_sort(it, args, kwargs):
    a, axis = getargs(args, {k: v for k, v in kwargs.items() if k != "kind"}, ["a", "axis"], [-1])
    a = to_arr(it, a)
    if a.ndim != 1:
        raise Unsupported("sort of a multi-dimensional array")
    return sorted_arr(it, a)


def sorted_arr(it, a):
    nm = "sorted!%d" % next(tm._fresh)
    it.ghost.setdefault("sorted", {})[nm] = (a.shape[0], a.snap())
    n = a.shape[0]
    f = lambda i: tm.app(nm, i, sort=I if a.dtype == "i" else R)
    it.assume(tm.all_(ONE, n, lambda k: tm.le(f(tm.sub(k, ONE)), f(k))))
    return mkarr(lambda ix: f(ix[0]), (n,), a.dtype, name=nm)


@npf("ndenumerate")
def np_ndenumerate(it, args, kwargs):
    a = to_arr(it, args[0])
    f = a.snap()
    if a.ndim != 1:
        if a.ndim and all(d.op == "num" for d in a.shape):
            return PList([(tuple(x), Num(f(tuple(tm.num(i) for i in x)), True))
                          for x in itertools.product(*[range(int(tm.val(d))) for d in a.shape])])
        raise Unsupported("ndenumerate of a multi-dimensional array")
    return Seq(a.shape[0], lambda i: ((mknum(i),), Num(f((i,)), True)))


@npf("ndindex")
def np_ndindex(it, args, kwargs):
    sh = dims(it, args[0]) if len(args) == 1 else tuple(intterm(it, x) for x in args)
    if len(sh) == 1:
        return Seq(sh[0], lambda i: (mknum(i),))
    if all(s.op == "num" for s in sh):
        return PList([tuple(x) for x in itertools.product(*[range(int(tm.val(s))) for s in sh])])
    raise Unsupported("ndindex")


# ====================================================================== linear algebra
def dot(it, a, b):
    if is_scalar(a) or is_scalar(b):
        return it.binop("Mult", a, b)
    a, b = to_arr(it, a), to_arr(it, b)
    if a.ndim == 0 or b.ndim == 0:
        return arith(it, "Mult", a, b)
    k = a.shape[-1]
    kb = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not it.decide(tm.eq(k, kb)):
        raise PyRaise("ValueError", "shapes not aligned")
    f, g = a.snap(), b.snap()
    na = a.ndim - 1
    shape = tuple(a.shape[:-1]) + (tuple(b.shape[:-2]) + (b.shape[-1],) if b.ndim > 1 else ())
    if b.ndim > 2:
        raise Unsupported("dot with more than two dimensions")

    def fn(ix):
        l, r = tuple(ix[:na]), tuple(ix[na:])
        return tm.sum_(Z, k, lambda s: tm.mul(numterm(f(l + (s,))), numterm(g((s,) + r))))
    return wrap(fn, shape, join_dtype(a.dtype, b.dtype))


def matmul(it, a, b):
    if is_scalar(a) or is_scalar(b):
        raise PyRaise("ValueError", "matmul: scalar operand")
    a, b = to_arr(it, a), to_arr(it, b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("stacked matmul")
    return dot(it, a, b)


@npf("dot")
def np_dot(it, args, kwargs):
    a, b = getargs(args, kwargs, ["a", "b"])
    return dot(it, a, b)


@npf("matmul")
def np_matmul(it, args, kwargs):
    return matmul(it, args[0], args[1])


@npf("inner", "vdot")
def np_inner(it, args, kwargs):
    a, b = (to_arr(it, x) for x in args[:2])
    if a.ndim == 1 and b.ndim == 1:
        return dot(it, a, b)
    raise Unsupported("inner")


@npf("outer")
def np_outer(it, args, kwargs):
    a, b = (ravel(it, to_arr(it, x)) for x in args[:2])
    f, g = a.snap(), b.snap()
    return mkarr(lambda ix: tm.mul(numterm(f((ix[0],))), numterm(g((ix[1],)))), (a.shape[0], b.shape[0]),
                 join_dtype(a.dtype, b.dtype))


@npf("cross")
def np_cross(it, args, kwargs):
    a, b = (to_arr(it, x) for x in args[:2])
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("cross of stacked vectors")
    for x in (a, b):
        if not it.decide(tm.eq(x.shape[0], tm.num(3))):
            raise Unsupported("cross of non 3-vectors")
    f = [numterm(a.get((tm.num(i),))) for i in range(3)]
    g = [numterm(b.get((tm.num(i),))) for i in range(3)]
    r = [tm.sub(tm.mul(f[1], g[2]), tm.mul(f[2], g[1])),
         tm.sub(tm.mul(f[2], g[0]), tm.mul(f[0], g[2])),
         tm.sub(tm.mul(f[0], g[1]), tm.mul(f[1], g[0]))]
    return array_of(it, PList([Num(x, True) for x in r]))


@npf("einsum")
def np_einsum(it, args, kwargs):
    spec = args[0]
    if not isinstance(spec, str):
        raise Unsupported("einsum without a subscript string")
    ops = [to_arr(it, x) for x in args[1:]]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins if c != ","]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    dim = {}
    for s, a in zip(ins, ops):
        if len(s) != a.ndim:
            raise PyRaise("ValueError", "einsum operand dimensions")
        for c, n in zip(s, a.shape):
            if c in dim:
                if not it.decide(tm.eq(dim[c], n)):
                    raise PyRaise("ValueError", "einsum dimension mismatch")
            else:
                dim[c] = n
    snaps = [a.snap() for a in ops]
    inner = [c for c in dim if c not in out]
    dt = ops[0].dtype
    for a in ops[1:]:
        dt = join_dtype(dt, a.dtype)

    def fn(ix):
        env = dict(zip(out, ix))

        def go(k, env):
            if k == len(inner):
                return tm.mul(*[numterm(f(tuple(env[c] for c in s))) for f, s in zip(snaps, ins)])
            c = inner[k]
            return tm.sum_(Z, dim[c], lambda j: go(k + 1, {**env, c: j}))
        return go(0, env)
    return wrap(fn, tuple(dim[c] for c in out), dt)


@npf("tensordot")
def np_tensordot(it, args, kwargs):
    a, b = to_arr(it, args[0]), to_arr(it, args[1])
    axes = args[2] if len(args) > 2 else kwargs.get("axes", 2)
    if axes == 1 and b.ndim <= 2:
        return dot(it, a, b)
    raise Unsupported("tensordot")


def det_terms(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return tm.sub(tm.mul(m[0][0], m[1][1]), tm.mul(m[0][1], m[1][0]))
    out = []
    for j in range(n):
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        t = tm.mul(m[0][j], det_terms(minor))
        out.append(t if j % 2 == 0 else tm.neg(t))
    return tm.add(*out)


def np_det(it, args, kwargs):
    a = to_arr(it, args[0])
    if a.ndim != 2:
        raise Unsupported("det")
    n = a.shape[0]
    if n.op != "num" or not it.decide(tm.eq(a.shape[1], n)):
        if n.op != "num":
            raise Unsupported("determinant of symbolic size")
        raise PyRaise("LinAlgError", "must be square")
    k = int(tm.val(n))
    m = [[numterm(a.get((tm.num(i), tm.num(j)))) for j in range(k)] for i in range(k)]
    return Num(det_terms(m), True)


def np_norm(it, args, kwargs):
    x, ord_, axis, keepdims = getargs(args, kwargs, ["x", "ord", "axis", "keepdims"], [None, None, False])
    x = to_arr(it, x)
    if ord_ is not None:
        o = it.concrete_int(ord_)
        if o != 2 or (x.ndim != 1 and axis is None):
            raise Unsupported("matrix or non-Euclidean norm")
    sq = nary(it, lambda t: tm.mul(numterm(t), numterm(t)), [x], "f")
    s = sum_arr(it, sq, axis, bool(keepdims))
    return nary(it, tm.sqrt, [s], "f")


def np_eigh(it, args, kwargs):
    """eigh of a symmetric 3x3 matrix: eigenvalues and an orthonormal matrix of column vectors."""
    a = to_arr(it, args[0])
    n = a.shape[0]
    nm = next(tm._fresh)
    w = mkarr(lambda ix: tm.app("eigw!%d" % nm, ix[0]), (n,), "f")
    vn = "eigv!%d" % nm
    v = mkarr(lambda ix: tm.app(vn, ix[0], ix[1]), (n, n), "f", name=vn)
    it.ghost.setdefault("eigh", []).append((vn, n, a.snap()))
    return (w, v)


LINALG = {"det": Builtin("np.linalg.det", np_det), "norm": Builtin("np.linalg.norm", np_norm),
          "eigh": Builtin("np.linalg.eigh", np_eigh)}


@npf("trapz", "trapezoid")
def np_trapz(it, args, kwargs):
    y, x, dx, axis = getargs(args, kwargs, ["y", "x", "dx", "axis"], [None, Num(R1), -1])
    y = to_arr(it, y)
    if y.ndim != 1:
        raise Unsupported("trapz of a multi-dimensional array")
    f = y.snap()
    n = y.shape[0]
    if x is not None:
        x = to_arr(it, x)
        if x.ndim != 1:
            raise Unsupported("trapz abscissae")
        if not it.decide(tm.eq(x.shape[0], n)):
            # broadcasting of differences of length m-1 against n-1
            raise PyRaise("ValueError", "operands could not be broadcast together")
        g = x.snap()
        h = lambda k: tm.sub(g((tm.add(k, ONE),)), g((k,)))
    else:
        d = tv(dx)
        h = lambda k: d
    if not it.decide(tm.le(ONE, n)):
        return Num(R0, True)
    half = tm.num(Fraction(1, 2))
    return Num(tm.sum_(Z, tm.sub(n, ONE), lambda k: tm.mul(
        h(k), tm.add(numterm(f((tm.add(k, ONE),))), numterm(f((k,)))), half)), True)


# ====================================================================== masked arrays
MA = {}


def _masked(op):
    def f(it, args, kwargs):
        x, v, cp = getargs(args, kwargs, ["x", "value", "copy"], [True])
        if isinstance(x, MArr):
            raise Unsupported("masking a masked array")
        x = to_arr(it, x)
        return MArr(copy_arr(it, x) if it.truthy(cp) else x, cmp(it, op, x, v), x.shape)
    return f


for _n, _o in (("masked_less_equal", "LtE"), ("masked_less", "Lt"), ("masked_greater", "Gt"),
               ("masked_greater_equal", "GtE"), ("masked_equal", "Eq")):
    MA[_n] = Builtin("np.ma." + _n, _masked(_o))


def _masked_where(it, args, kwargs):
    c, x, cp = getargs(args, kwargs, ["condition", "a", "copy"], [True])
    x = to_arr(it, x)
    return MArr(copy_arr(it, x) if it.truthy(cp) else x, to_arr(it, c), x.shape)


def _masked_between(inside):
    def f(it, args, kwargs):
        x, lo, hi, cp = getargs(args, kwargs, ["x", "v1", "v2", "copy"], [True])
        if isinstance(x, MArr):
            raise Unsupported("masking a masked array")
        x = to_arr(it, x)
        a, b = numterm(tv(lo)), numterm(tv(hi))
        a, b = tm.min2(a, b), tm.max2(a, b)
        g = lambda t: tm.and_(tm.le(a, numterm(t)), tm.le(numterm(t), b))
        m = nary(it, g if inside else (lambda t: tm.not_(g(t))), [x], "b")
        return MArr(copy_arr(it, x) if it.truthy(cp) else x, m, x.shape)
    return f


MA["masked_inside"] = Builtin("np.ma.masked_inside", _masked_between(True))
MA["masked_outside"] = Builtin("np.ma.masked_outside", _masked_between(False))
for _n, _o in (("masked_not_equal", "NotEq"),):
    MA[_n] = Builtin("np.ma." + _n, _masked(_o))


def _masked_values(it, args, kwargs):
    x, v, rtol, atol, cp, shrink = getargs(args, kwargs, ["x", "value", "rtol", "atol", "copy", "shrink"],
                                           [Num(tm.num(1e-5)), Num(tm.num(1e-8)), True, True])
    x = to_arr(it, x)
    if x.dtype != "f":
        return _masked("Eq")(it, [x, v], {})
    return MArr(copy_arr(it, x) if it.truthy(cp) else x, np_isclose(it, [x, v, rtol, atol], {}), x.shape)


MA["masked_values"] = Builtin("np.ma.masked_values", _masked_values)


def _masked_invalid(it, args, kwargs):
    x, cp = getargs(args, kwargs, ["a", "copy"], [True])
    x = to_arr(it, x)
    bad = nary(it, n2(lambda t: tm.or_(tm.isnan(t), tm.isinf(t))), [x], "b")
    return MArr(nary(it, lambda b, t: tm.ite(b, R0, numterm(t)), [bad, x], "f"), bad, x.shape)


MA["masked_invalid"] = Builtin("np.ma.masked_invalid", _masked_invalid)
MA["masked_where"] = Builtin("np.ma.masked_where", _masked_where)


def _ma_array(it, args, kwargs):
    if len(args) > 2 or set(kwargs) - {"mask", "copy"} or isinstance(args[0], MArr):
        raise Unsupported("np.ma.array of a masked array or with options")
    x = to_arr(it, args[0])
    m = kwargs.get("mask", args[1] if len(args) > 1 else False)
    m = broadcast_to(it, to_arr(it, m), x.shape)
    return MArr(copy_arr(it, x) if it.truthy(kwargs.get("copy", False)) else x, m, x.shape)


MA["array"] = MA["masked_array"] = Builtin("np.ma.array", _ma_array)
MA["asarray"] = Builtin("np.ma.asarray", lambda it, a, k: a[0] if isinstance(a[0], MArr) else _ma_array(it, a[:1], {}))


def filled(it, x, fill):
    if isinstance(x, MArr):
        if fill is None:
            raise Unsupported("filled without a value")
        return nary(it, lambda m, d, v: tm.ite(m, numterm(v), numterm(d)), [x.mask, x.data, fill], "f")
    return to_arr(it, x) if not is_scalar(x) else x


MA["filled"] = Builtin("np.ma.filled", lambda it, a, k: filled(it, *getargs(a, k, ["a", "fill_value"], [None])))


def _ma_divide(it, args, kwargs):
    a, b = args[:2]
    if not isinstance(a, MArr) and not isinstance(b, MArr):
        b = MArr(to_arr(it, b), nary(it, lambda t: tm.FALSE, [b], "b"), to_arr(it, b).shape)
    return nary_masked(it, n2(tm.div), [a, b], "f", lambda x, y: tm.eq(numterm(y), R0))


MA["divide"] = MA["true_divide"] = Builtin("np.ma.divide", _ma_divide)


def _ma_log(it, args, kwargs):
    a = args[0]
    if not isinstance(a, MArr):
        a = MArr(to_arr(it, a), nary(it, lambda t: tm.FALSE, [a], "b"), to_arr(it, a).shape)
    return nary_masked(it, n2(tm.log), [a], "f", lambda x: tm.le(numterm(x), R0))


MA["log"] = Builtin("np.ma.log", _ma_log)
MA["power"] = NUMPY["power"]
MA["exp"] = NUMPY["exp"]
MA["getmaskarray"] = Builtin("np.ma.getmaskarray", lambda it, a, k: a[0].mask if isinstance(a[0], MArr) else umap(it, lambda t: tm.FALSE, a[0], "b"))
MA["getdata"] = Builtin("np.ma.getdata", lambda it, a, k: a[0].data if isinstance(a[0], MArr) else a[0])


# ====================================================================== random, misc
def np_random(it, args, kwargs):
    s = args[0] if args else kwargs.get("size")
    nm = "rnd!%d" % next(tm._fresh)
    if s is None:
        t = tm.app(nm)
        it.assume(tm.le(R0, t))
        it.assume(tm.lt(t, R1))
        return Num(t, False)
    sh = dims(it, s)
    f = lambda ix: tm.app(nm, *ix)
    if len(sh) == 1:
        it.assume(tm.all_(Z, sh[0], lambda k: tm.and_(tm.le(R0, f((k,))), tm.lt(f((k,)), R1))))
    return mkarr(f, sh, "f")


RANDOM = {"random": Builtin("np.random.random", np_random), "rand": Builtin(
    "np.random.rand", lambda it, a, k: np_random(it, [tuple(a)] if a else [], {})),
    "random_sample": Builtin("np.random.random_sample", np_random)}


@npf("errstate", "seterr")
def np_errstate(it, args, kwargs):
    return ErrState()


@npf("finfo")
def np_finfo(it, args, kwargs):
    o = PObj(None)
    o.attrs = {"eps": Num(tm.num(2.220446049250313e-16)), "tiny": Num(tm.num(2.2250738585072014e-308)),
               "max": Num(tm.num(1.7976931348623157e308))}
    return o


@npf("ndim")
def np_ndim(it, args, kwargs):
    a = args[0]
    return to_arr(it, a).ndim


@npf("shape")
def np_shape(it, args, kwargs):
    return tuple(mknum(s) for s in to_arr(it, args[0]).shape)


@npf("size")
def np_size(it, args, kwargs):
    return mknum(size(to_arr(it, args[0])))


@npf("isscalar")
def np_isscalar(it, args, kwargs):
    return is_scalar(args[0])


@npf("fill_diagonal")
def np_fill_diagonal(it, args, kwargs):
    a, v = args[0], args[1]
    write(it, a, v, lambda q: tm.and_(*[tm.eq(q[0], x) for x in q[1:]]))


@npf("add.at")
def _unused(it, args, kwargs):
    raise Unsupported("np.add.at")


@npf("unique")
def np_unique(it, args, kwargs):
    raise Unsupported("np.unique")


def np_types():
    t = {}
    t["ndarray"] = PType("ndarray", None)
    for n, d in (("float64", "f"), ("longdouble", "f"), ("float32", "f"), ("double", "f"), ("float_", "f"),
                 ("int64", "i"), ("int32", "i"), ("intp", "i"), ("int_", "i"), ("bool_", "b")):
        t[n] = PType("np." + n, (lambda dt: lambda it, a, k: (
            Num(cast(tv(a[0]), dt), True) if is_scalar(a[0]) else copy_arr(it, to_arr(it, a[0]), dt)))(d))
    for n in ("integer", "floating", "number", "generic", "inexact"):
        t[n] = PType("np." + n)
    return t


# ====================================================================== method tables
def arr_method(name):
    def deco(f):
        ARRM[name] = f
        return f
    return deco


ARRM = {}


def _m(fn):
    return fn


ARRM.update({
    "sum": lambda it, a, args, k: np_sum(it, [a] + args, k),
    "mean": lambda it, a, args, k: np_mean(it, [a] + args, k),
    "prod": lambda it, a, args, k: np_prod(it, [a] + args, k),
    "max": lambda it, a, args, k: np_max(it, [a] + args, k),
    "min": lambda it, a, args, k: np_min(it, [a] + args, k),
    "std": lambda it, a, args, k: np_std(it, [a] + args, k),
    "var": lambda it, a, args, k: np_var(it, [a] + args, k),
    "round": lambda it, a, args, k: np_round(it, [a] + args, k),
    "cumprod": lambda it, a, args, k: np_cumprod(it, [a] + args, k),
    "compress": lambda it, a, args, k: np_compress(it, [args[0], a], k),
    "ptp": lambda it, a, args, k: np_ptp(it, [a] + args, k),
    "any": lambda it, a, args, k: np_any(it, [a] + args, k),
    "all": lambda it, a, args, k: np_all(it, [a] + args, k),
    "argmin": lambda it, a, args, k: np_argmin(it, [a] + args, k),
    "argmax": lambda it, a, args, k: np_argmax(it, [a] + args, k),
    "cumsum": lambda it, a, args, k: np_cumsum(it, [a] + args, k),
    "dot": lambda it, a, args, k: dot(it, a, args[0]),
    "copy": lambda it, a, args, k: copy_arr(it, a),
    "view": lambda it, a, args, k: a if not args and not k else _un("view with another type"),
    "ravel": lambda it, a, args, k: ravel(it, a),
    "flatten": lambda it, a, args, k: copy_arr(it, ravel(it, a)),
    "squeeze": lambda it, a, args, k: np_squeeze(it, [a] + args, k),
    "transpose": lambda it, a, args, k: np_transpose(it, [a] + ([args[0] if len(args) == 1 else tuple(args)] if args else []), k),
    "swapaxes": lambda it, a, args, k: np_swapaxes(it, [a] + args, k),
    "reshape": lambda it, a, args, k: reshape(it, a, dims(it, args[0]) if len(args) == 1 else tuple(intterm(it, x) for x in args)),
    "astype": lambda it, a, args, k: (copy_arr(it, a, dtype_val((args or [k.get("dtype")])[0], a.dtype))
                                      if not ("copy" in k and k["copy"] is False and dtype_val((args or [k.get("dtype")])[0], a.dtype) == a.dtype) else a),
    "item": lambda it, a, args, k: mknum(flat_get(a, intterm(it, args[0]) if args else Z)),
    "tolist": lambda it, a, args, k: tolist(it, a),
    "fill": lambda it, a, args, k: write(it, a, args[0]),
    "clip": lambda it, a, args, k: np_clip(it, [a] + args, {{"min": "a_min", "max": "a_max"}.get(q, q): v for q, v in k.items()}),
    "repeat": lambda it, a, args, k: np_repeat(it, [a] + args, k),
    "nonzero": lambda it, a, args, k: np_nonzero(it, [a], {}),
    "diagonal": lambda it, a, args, k: np_diag(it, [a], {}),
    "trace": lambda it, a, args, k: np_trace(it, [a], {}),
    "take": lambda it, a, args, k: fancy(it, a, [to_arr(it, args[0])]) if a.ndim == 1 else _un("take"),
    "searchsorted": lambda it, a, args, k: np_searchsorted(it, [a] + args, k),
    "sort": lambda it, a, args, k: write(it, a, sorted_arr(it, a)),
    "__len__": lambda it, a, args, k: mknum(a.shape[0]),
    "__iter__": lambda it, a, args, k: a,
    "__getitem__": lambda it, a, args, k: index(it, a, args[0]),
    "filled": lambda it, a, args, k: a,
})


def _un(n):
    raise Unsupported(n)


def tolist(it, a):
    f = a.snap()
    n = a.shape[0]
    if a.ndim == 1:
        if n.op == "num":
            return PList([mknum(f((tm.num(i),))) for i in range(int(tm.val(n)))])
        return PList(head=(n, lambda i: Num(f((i,)))))
    if n.op == "num":
        return PList([tolist(it, index_ok(it, a, tm.num(i))) for i in range(int(tm.val(n)))])
    raise Unsupported("tolist")


LISTM = {
    "append": lambda it, l, a, k: it.list_append(l, a[0]),
    "extend": lambda it, l, a, k: it.list_extend(l, a[0]),
    "copy": lambda it, l, a, k: it.list_copy(l),
    "insert": lambda it, l, a, k: _list_insert(it, l, a),
    "pop": lambda it, l, a, k: _list_pop(it, l, a),
    "index": lambda it, l, a, k: _list_index(it, l, a[0]),
    "count": lambda it, l, a, k: mknum(tm.add(*[numterm(it.equal(x, a[0])) for x in it.concrete_items(l)])) if it.concrete_items(l) else 0,
    "reverse": lambda it, l, a, k: it.set_items(l, list(it.concrete_items(l))[::-1]) if l.head is None else _un("reverse"),
    "clear": lambda it, l, a, k: _list_clear(it, l),
    "remove": lambda it, l, a, k: _list_remove(it, l, a[0]),
    "sort": lambda it, l, a, k: it.set_items(l, _sorted(it, l, k)) if l.head is None else _un("sort"),
    "__len__": lambda it, l, a, k: mknum(it.list_len(l)),
    "__iter__": lambda it, l, a, k: l,
}


def _list_clear(it, l):
    it.jset("head", l, None, l.head)
    l.head = None
    it.set_items(l, [])


def _list_remove(it, l, v):
    i = _list_index(it, l, v)
    items = list(l.items)
    del items[i]
    it.set_items(l, items)


def _list_insert(it, l, a):
    if l.head is not None:
        raise Unsupported("insert into a symbolic list")
    i = it.concrete_int(a[0])
    if i is None:
        raise Unsupported("insert at a symbolic position")
    items = list(l.items)
    items.insert(i, a[1])
    it.set_items(l, items)


def _list_pop(it, l, a):
    i = it.concrete_int(a[0]) if a else -1
    if l.head is not None and not (i == -1 and l.items):
        raise Unsupported("pop from a symbolic list")
    items = list(l.items)
    if not items:
        raise PyRaise("IndexError", "pop from empty list")
    v = items.pop(i)
    it.set_items(l, items)
    return v


def _list_index(it, l, x):
    for i, v in enumerate(it.concrete_items(l)):
        if it.decide(it.equal(v, x)):
            return i
    raise PyRaise("ValueError", "not in list")


DICTM = {
    "items": lambda it, d, a, k: PList([(it.unkey(x), v) for x, v in d.items.items()]),
    "keys": lambda it, d, a, k: PList([it.unkey(x) for x in d.items]),
    "values": lambda it, d, a, k: PList(list(d.items.values())),
    "get": lambda it, d, a, k: _dict_get(it, d, a),
    "update": lambda it, d, a, k: it.set_items(d, {**d.items, **(a[0].items if a else {}), **k}),
    "copy": lambda it, d, a, k: PDict(d.items, d.fn),
    "setdefault": lambda it, d, a, k: _dict_setdefault(it, d, a),
    "pop": lambda it, d, a, k: _dict_pop(it, d, a),
}


def _dict_get(it, d, a):
    try:
        return it.dict_get(d, a[0])
    except PyRaise as e:
        if e.name != "KeyError":
            raise
        return a[1] if len(a) > 1 else None


def _dict_setdefault(it, d, a):
    k = it.key(a[0])
    if k not in d.items:
        it.set_items(d, {**d.items, k: a[1] if len(a) > 1 else None})
    return d.items[k]


def _dict_pop(it, d, a):
    k = it.key(a[0])
    if k in d.items:
        items = dict(d.items)
        v = items.pop(k)
        it.set_items(d, items)
        return v
    if len(a) > 1:
        return a[1]
    raise PyRaise("KeyError")


SETM = {
    "add": lambda it, s, a, k: it.set_add(s, a[0]),
    "update": lambda it, s, a, k: [it.set_add(s, x) for x in it.concrete_items(a[0])] and None,
    "discard": lambda it, s, a, k: it.set_items(s, [x for x in s.items if not it.decide(it.equal(x, a[0]))]),
    "union": lambda it, s, a, k: it.binop("BitOr", s, a[0]),
    "copy": lambda it, s, a, k: PSet(s.items),
}

def _strm(name):
    def f(it, s, a, k):
        def conc(x):
            if isinstance(x, PList) and name == "join":
                return all(isinstance(y, str) for y in x.items)
            if isinstance(x, tuple):
                return all(conc(y) for y in x)
            return x is None or isinstance(x, (str, int, bool))
        if name == "join" and a and not isinstance(a[0], (PList, tuple, str)):
            a = [PList(list(it.concrete_items(a[0])))]
        if not (all(conc(x) for x in a) and all(conc(x) for x in k.values())):
            if name in ("format", "join"):
                return OpaqueStr()
            raise Unsupported("str.%s of symbolic text" % name)
        args = [x.items if isinstance(x, PList) else x for x in a]
        try:
            r = getattr(s, name)(*args, **k)
        except (ValueError, TypeError, IndexError, KeyError) as e:
            raise PyRaise(type(e).__name__, str(e))
        if isinstance(r, list):
            return PList(r)
        if r is None or isinstance(r, (str, int, bool)) or type(r) is tuple:
            return r
        raise Unsupported("str.%s" % name)
    return f


STRM = {n: _strm(n) for n in """lower upper strip lstrip rstrip isalpha isdigit isnumeric isdecimal isalnum isspace isupper islower
istitle startswith endswith split rsplit splitlines partition rpartition replace format join capitalize title casefold swapcase
count index rindex find rfind zfill ljust rjust center removeprefix removesuffix expandtabs""".split()}


NDARRAY = frozenset("""all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy
ctypes cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min
nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags
shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view""".split())


def getattr_value(it, o, name):
    from .interp import MISSING
    if isinstance(o, Arr):
        if name == "shape":
            return tuple(mknum(s) for s in o.shape)
        if name == "ndim":
            return o.ndim
        if name == "size":
            return mknum(size(o))
        if name == "T":
            return transpose(o, list(range(o.ndim))[::-1])
        if name == "dtype":
            return DType(o.dtype)
        if name == "flat":
            return ravel(it, o)
        if name == "real":
            return o
        f = ARRM.get(name)
        if f:
            return Builtin("ndarray." + name, lambda i, a, k: f(i, o, a, k))
        if name in NDARRAY:
            raise Unsupported("ndarray.%s has no contract" % name)
        return MISSING
    if isinstance(o, MArr):
        if name == "filled":
            return Builtin("ma.filled", lambda i, a, k: filled(i, o, *getargs(a, k, ["fill_value"], [None])))
        if name == "mask":
            return o.mask
        if name == "data":
            return o.data
        if name == "shape":
            return tuple(mknum(s) for s in o.shape)
        if name == "ndim":
            return len(o.shape)
        if name == "sum":
            return Builtin("ma.sum", lambda i, a, k: sum_arr(i, o, *getargs(a, k, ["axis"], [None])))
        raise Unsupported("masked array attribute %s" % name)
    tab = {PList: LISTM, PDict: DICTM, PSet: SETM, str: STRM}.get(type(o))
    if tab is not None:
        f = tab.get(name)
        if f:
            return Builtin("%s.%s" % (type(o).__name__, name), lambda i, a, k: f(i, o, a, k))
        real = {PList: list, PDict: dict, PSet: set, str: str}[type(o)]
        if hasattr(real, name):
            raise Unsupported("%s.%s has no contract" % (real.__name__, name))
        return MISSING
    if isinstance(o, textmodel.TextFile):
        return textmodel.file_attr(it, o, name)
    if isinstance(o, textmodel.ReMatch):
        return textmodel.match_attr(it, o, name)
    if isinstance(o, textmodel.RePattern):
        return textmodel.pattern_attr(it, o, name)
    if isinstance(o, SymStr) and o.t in it.spelling and name in textmodel.SPELL:
        return Builtin("str." + name, lambda i, a, k: getattr(it.spelling[o.t], name)())
    if isinstance(o, (OpaqueStr, SymStr)):
        if name in ("format", "join"):
            return Builtin("str." + name, lambda i, a, k: OpaqueStr())
        if isinstance(o, OpaqueStr) and name in STRM:
            return Builtin("str." + name, lambda i, a, k: OpaqueStr())
        if isinstance(o, SymStr) and name in ("lower", "upper", "casefold"):
            return Builtin("str." + name, lambda i, a, k: SymStr(tm.mk("app", (name, o.t), U)))
        if isinstance(o, SymStr) and name in ("isalpha", "isdigit"):
            return Builtin("str." + name, lambda i, a, k: mknum(tm.mk("app", (name, o.t), B)))
        if isinstance(o, SymStr) and name in STRM:
            raise Unsupported("method %s of a symbolic string" % name)
        return MISSING
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return Builtin("tuple." + name, lambda i, a, k: LISTM[name](i, PList(o), a, k))
        if name == "__len__":
            return Builtin("tuple.__len__", lambda i, a, k: len(o))
        return MISSING
    if isinstance(o, (Num, int, float)):
        if name in ("item",):
            return Builtin("scalar.item", lambda i, a, k: mknum(tv(o)))
        isnp = isinstance(o, Num) and o.np
        if name == "real":
            return o
        if isnp:
            if name == "ndim":
                return 0
            if name == "shape":
                return ()
            if name == "size":
                return 1
            if name == "T":
                return o
            if name == "dtype":
                return DType(scalar_dtype(o))
            f = ARRM.get(name)
            if f and name in ("sum", "max", "min", "mean", "copy", "any", "all"):
                return Builtin("scalar." + name, lambda i, a, k: o)
            if name in ("ravel", "flatten", "reshape"):
                return Builtin("scalar." + name, lambda i, a, k: f(i, reshape0(to_arr(i, o)), a, k))
            if name == "astype":
                return Builtin("scalar.astype", lambda i, a, k: Num(cast(tv(o), dtype_val(a[0], "f")), True))
            if name == "tolist":
                return Builtin("scalar.tolist", lambda i, a, k: mknum(tv(o)))
        if name == "is_integer":
            return Builtin("float.is_integer", lambda i, a, k: mknum(tm.eq(tm.floor(tv(o)), tv(o))))
        return MISSING
    if isinstance(o, DType):
        if name == "kind":
            return {"f": "f", "i": "i", "b": "b"}.get(o.kind, "U")
        if name == "name":
            return o.name
        return MISSING
    if isinstance(o, (PFunc, Builtin, PType)):
        if name == "__name__":
            return o.name
        if isinstance(o, Builtin) and o.name.startswith("np.") and name in ("reduce", "outer", "accumulate", "at"):
            base = o.name[3:]
            if name == "reduce" and base in ("add", "multiply", "maximum", "minimum", "logical_and", "logical_or"):
                g = {"add": np_sum, "multiply": np_prod, "maximum": np_max, "minimum": np_min,
                     "logical_and": np_all, "logical_or": np_any}[base]

                def red(i, a, k, g=g):
                    if "axis" not in k and len(a) < 2:
                        k = dict(k)
                        k["axis"] = 0
                    return g(i, a, k)
                return Builtin(o.name + ".reduce", red)
            if name == "outer" and base in ("multiply", "subtract", "add"):
                return Builtin(o.name + ".outer", lambda i, a, k: o.fn(
                    i, [index(i, to_arr(i, a[0]), (Ellipsis,) + (None,) * to_arr(i, a[1]).ndim), a[1]], {}))
            raise Unsupported("%s.%s" % (o.name, name))
        return MISSING
    if isinstance(o, Seq):
        return MISSING
    if isinstance(o, Poison):
        raise Unsupported("use of %s, undetermined after a loop" % o.what)
    if isinstance(o, SliceV):
        return {"start": o.lo, "stop": o.hi, "step": o.step}.get(name, MISSING)
    if isinstance(o, Bound):
        if name == "__self__":
            return o.self_
        if name == "__name__":
            return o.func.name
    return MISSING


# ====================================================================== Python built-ins
def isinst(it, v, t):
    if isinstance(t, tuple):
        return any(isinst(it, v, x) for x in t)
    if isinstance(t, PClass):
        return isinstance(v, PObj) and v.cls is not None and t in v.cls.mro() or \
            isinstance(v, PObj) and v.cls is not None and any(c.name == t.name and c.mod is t.mod for c in v.cls.mro())
    n = t.name if isinstance(t, (PType,)) else None
    if n is None:
        raise Unsupported("isinstance with %r" % (t,))
    if n == "ndarray":
        return isinstance(v, (Arr, MArr))
    if n == "object":
        return True
    if n == "str":
        return isinstance(v, (str, OpaqueStr, SymStr))
    if n == "bool":
        return isinstance(v, bool) or (isinstance(v, Num) and v.t.sort == B and not v.np)
    if n == "int":
        return isinstance(v, int) or (isinstance(v, Num) and not v.np and v.t.sort in (I, B))
    if n == "float":
        return isinstance(v, float) or (isinstance(v, Num) and v.t.sort == R)
    if n in ("Integral",):
        return isinstance(v, int) or (isinstance(v, Num) and (v.t.sort == I or (v.t.sort == B and not v.np)))
    if n in ("Real", "Number", "Complex"):
        return isinstance(v, (int, float)) or isinstance(v, Num) and v.t.sort != U
    if n in ("np.integer",):
        return isinstance(v, Num) and v.np and v.t.sort == I
    if n in ("np.floating", "np.inexact", "np.float64", "np.double", "np.float_"):
        return isinstance(v, Num) and v.np and v.t.sort == R
    if n in ("np.number", "np.generic"):
        return isinstance(v, Num) and v.np
    if n == "np.bool_":
        return isinstance(v, Num) and v.np and v.t.sort == B
    if n == "list":
        return isinstance(v, PList)
    if n == "tuple":
        return isinstance(v, tuple)
    if n == "dict":
        return isinstance(v, PDict)
    if n == "set":
        return isinstance(v, PSet)
    if n in ("Iterable", "Sequence", "Collection"):
        return isinstance(v, (PList, tuple, Arr, PDict, PSet, str)) and not (n == "Sequence" and isinstance(v, (Arr, PDict, PSet)))
    if n == "Callable":
        return callable_(v)
    if n == "NoneType":
        return v is None
    if n.startswith("np."):
        return False
    raise Unsupported("isinstance with %s" % n)


def callable_(v):
    return isinstance(v, (PFunc, Builtin, Bound, PClass, PType)) or \
        (isinstance(v, PObj) and ("__call__" in v.attrs or (v.cls is not None and v.cls.lookup("__call__") is not None)))


@bi("isinstance")
def b_isinstance(it, a, k):
    return isinst(it, a[0], a[1])


@bi("issubclass")
def b_issubclass(it, a, k):
    t = a[1] if isinstance(a[1], tuple) else (a[1],)
    return isinstance(a[0], PClass) and any(c in a[0].mro() for c in t)


@bi("len")
def b_len(it, a, k):
    v = a[0]
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, SymStr) and v.t in it.spelling:
        return len(it.spelling[v.t])
    if isinstance(v, PList):
        return mknum(it.list_len(v))
    if isinstance(v, (PDict, PSet)):
        return len(v.items)
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyRaise("TypeError", "len() of unsized object")
        return mknum(it.ctx.rw(v.shape[0]))
    if isinstance(v, MArr):
        return mknum(v.shape[0])
    if isinstance(v, Seq):
        return mknum(v.n)
    if isinstance(v, PObj):
        if "__len__" in v.attrs:
            return it.call(v.attrs["__len__"], [], {})
        if v.cls is not None and v.cls.lookup("__len__"):
            return it.call(it.getattr(v, "__len__"), [], {})
    raise PyRaise("TypeError", "object has no len()")


@bi("range")
def b_range(it, a, k):
    ts = [intterm_py(it, x) for x in a]
    lo, hi, st = (Z, ts[0], ONE) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else ONE)
    if st.op != "num":
        raise Unsupported("range with symbolic step")
    s = int(tm.val(st))
    if s == 0:
        raise PyRaise("ValueError", "range() arg 3 must not be zero")
    if lo.op == "num" and hi.op == "num":
        return PList(list(range(int(tm.val(lo)), int(tm.val(hi)), s)))
    n = tm.sub(hi, lo) if s > 0 else tm.sub(lo, hi)
    if abs(s) != 1:
        n = tm.idiv(tm.add(n, tm.num(abs(s) - 1)), tm.num(abs(s)))
    if n.op == "num":
        return PList([mknum(tm.add(lo, tm.num(s * i))) for i in range(max(0, int(tm.val(n))))])
    if not it.decide(tm.le(Z, n)):
        n = Z
    return Seq(n, lambda i: mknum(tm.add(lo, tm.mul(tm.num(s), i))))


def intterm_py(it, v):
    if isinstance(v, (Num, int)) or isinstance(v, Arr):
        return intterm(it, v)
    raise PyRaise("TypeError", "an integer is required")


@bi("enumerate")
def b_enumerate(it, a, k):
    start = it.concrete_int(k.get("start", a[1] if len(a) > 1 else 0))
    if isinstance(a[0], (textmodel.TextFile, textmodel.LazyGen)):
        return _lazily(it, a[0], lambda s: enumerate(s, start))
    seq = it.iterate(a[0])
    if isinstance(seq, list):
        return PList([(i + start, x) for i, x in enumerate(seq)])
    return Seq(seq.n, lambda i: (mknum(tm.add(i, tm.num(start))), seq.get(i)))


@bi("zip")
def b_zip(it, a, k):
    if any(isinstance(x, textmodel.InfGen) for x in a):
        lens = [x for x in a if not isinstance(x, textmodel.InfGen)]
        z = it.iterate(b_zip(it, lens, {}))
        pos = [i for i, x in enumerate(a) if not isinstance(x, textmodel.InfGen)]

        def row(i, r):
            return tuple(x.get(i) if isinstance(x, textmodel.InfGen) else r[pos.index(j)] for j, x in enumerate(a))
        if isinstance(z, list):
            return PList([row(tm.num(i), r) for i, r in enumerate(z)])
        return Seq(z.n, lambda i: row(i, z.get(i)))
    if any(isinstance(x, (textmodel.TextFile, textmodel.LazyGen)) for x in a):
        return textmodel.LazyGen(zip(*[textmodel.Lines(x) if isinstance(x, (textmodel.TextFile, textmodel.LazyGen))
                                       else it.concrete_items(x) for x in a]))
    seqs = [it.iterate(x) for x in a]
    if all(isinstance(s, list) for s in seqs):
        return PList([tuple(x) for x in zip(*seqs)])
    lens = [tm.num(len(s)) if isinstance(s, list) else s.n for s in seqs]
    n = lens[0]
    for m in lens[1:]:
        if m is n:
            continue
        if it.decide(tm.eq(m, n)):
            continue
        n = n if it.decide(tm.le(n, m)) else m

    def get(i):
        out = []
        for s in seqs:
            if isinstance(s, list):
                out.append(it.list_get(PList(s), mknum(i)))
            else:
                out.append(s.get(i))
        return tuple(out)
    if n.op == "num":
        return PList([get(tm.num(i)) for i in range(int(tm.val(n)))])
    return Seq(n, get)


@bi("reversed")
def b_reversed(it, a, k):
    s = it.iterate(a[0])
    if isinstance(s, list):
        return PList(s[::-1])
    return Seq(s.n, lambda i: s.get(tm.sub(tm.sub(s.n, ONE), i)))


@bi("map")
def b_map(it, a, k):
    if len(a) == 2:
        s = it.iterate(a[1])
        if isinstance(s, list):
            return PList([it.call(a[0], [x], {}) for x in s])
        from . import loops
        return PList(head=loops.comp_seq(it, s, lambda x: it.call(a[0], [x], {})))
    z = it.iterate(b_zip(it, list(a[1:]), {}))
    if isinstance(z, list):
        return PList([it.call(a[0], list(x), {}) for x in z])
    from . import loops
    return PList(head=loops.comp_seq(it, z, lambda x: it.call(a[0], list(x), {})))


@bi("filter")
def b_filter(it, a, k):
    return PList([x for x in it.concrete_items(a[1]) if it.truthy(it.call(a[0], [x], {}) if a[0] is not None else x)])


@bi("sum")
def b_sum(it, a, k):
    l = a[0]
    if isinstance(l, PList) and l.sel and not l.items and l.head is not None and len(a) == 1 and not k:
        n, mask, get = l.sel
        if is_scalar(get(tm.fresh("k"))):
            return Num(tm.sum_(Z, n, lambda i: tm.ite(mask(i), numterm(tv(get(i))), R0)))
    s = it.iterate(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(s, list):
        r = start
        for x in s:
            r = it.binop("Add", r, x)
        return r
    kk = tm.fresh("k")
    e = s.get(kk)
    if is_scalar(e):
        t = tm.sum_(Z, s.n, lambda i: numterm(tv(s.get(i))))
        return it.binop("Add", start, Num(t, isinstance(e, Num) and e.np)) if start != 0 else Num(t)
    if isinstance(e, Arr):
        if any(kk in tm.fv(d) for d in e.shape):
            raise Unsupported("sum of arrays of varying shape")
        r = mkarr(lambda ix: tm.sum_(Z, s.n, lambda i: numterm(s.get(i).get(ix))), e.shape, e.dtype)
        return it.binop("Add", start, r) if start != 0 else r
    raise Unsupported("sum over a symbolic sequence")


@bi("any")
def b_any(it, a, k):
    s = it.iterate(a[0])
    if isinstance(s, list):
        return any(it.truthy(x) for x in s)
    return mknum(tm.ex_(Z, s.n, lambda i: cast(tv(s.get(i)), "b")))


@bi("all")
def b_all(it, a, k):
    s = it.iterate(a[0])
    if isinstance(s, list):
        return all(it.truthy(x) for x in s)
    return mknum(tm.all_(Z, s.n, lambda i: cast(tv(s.get(i)), "b")))


def _extreme(op):
    def f(it, a, k):
        key = k.get("key")
        if len(a) == 1:
            items = it.iterate(a[0])
            if isinstance(items, Seq):
                if key is None:
                    if not it.decide(tm.lt(Z, items.n)):
                        raise PyRaise("ValueError", "empty sequence")
                    b = tm.max_ if op == "max" else tm.min_
                    return Num(b(Z, items.n, lambda i: numterm(tv(items.get(i)))))
                raise Unsupported("min/max with key over a symbolic sequence")
        else:
            items = list(a)
        if not items:
            if "default" in k:
                return k["default"]
            raise PyRaise("ValueError", "empty sequence")
        best = items[0]
        bk = it.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            xk = it.call(key, [x], {}) if key is not None else x
            c = it.compare("Lt" if op == "min" else "Gt", xk, bk)
            if key is None and is_scalar(x) and is_scalar(best):
                best = it.merge_value(tv(c), x, best)
                bk = best
            elif it.truthy(c):
                best, bk = x, xk
        return best
    return f


BUILT["max"] = Builtin("max", _extreme("max"))
BUILT["min"] = Builtin("min", _extreme("min"))


@bi("abs")
def b_abs(it, a, k):
    v = a[0]
    if isinstance(v, (Arr, MArr)):
        return nary(it, n2(tm.abs_), [v])
    return mknum(tm.abs_(numterm(tv(v))), isinstance(v, Num) and v.np)


@bi("round")
def b_round(it, a, k):
    x, nd = getargs(a, k, ["number", "ndigits"], [None])
    if nd is not None:
        return np_round(it, [x, nd], {})
    return mknum(rint(numterm(tv(x))))


@bi("pow")
def b_pow(it, a, k):
    return it.binop("Pow", a[0], a[1])


@bi("divmod")
def b_divmod(it, a, k):
    return (it.binop("FloorDiv", a[0], a[1]), it.binop("Mod", a[0], a[1]))


@bi("print")
def b_print(it, a, k):
    return None


@bi("hasattr")
def b_hasattr(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if e.name == "AttributeError":
            return False
        raise


@bi("getattr")
def b_getattr(it, a, k):
    try:
        return it.getattr(a[0], a[1])
    except PyRaise as e:
        if e.name == "AttributeError" and len(a) > 2:
            return a[2]
        raise


@bi("setattr")
def b_setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


@bi("callable")
def b_callable(it, a, k):
    return callable_(a[0])


@bi("id")
def b_id(it, a, k):
    raise Unsupported("id()")


@bi("iter")
def b_iter(it, a, k):
    if isinstance(a[0], (textmodel.TextFile, textmodel.LazyGen)):
        return a[0]
    return PList(list(it.concrete_items(a[0])))


@bi("next")
def b_next(it, a, k):
    if isinstance(a[0], (textmodel.TextFile, textmodel.LazyGen)):
        x = a[0].next()
        if x is not None:
            return x
        if len(a) > 1:
            return a[1]
        raise PyRaise("StopIteration")
    if isinstance(a[0], PList) and a[0].head is None:
        if a[0].items:
            return LISTM["pop"](it, a[0], [0], {})
        if len(a) > 1:
            return a[1]
        raise PyRaise("StopIteration")
    raise Unsupported("next()")


def _sorted(it, v, k):
    items = list(it.concrete_items(v))
    key = k.get("key")
    keyed = [(it.call(key, [x], {}) if key is not None else x, x) for x in items]
    out = []
    for kx, x in keyed:
        i = len(out)
        while i > 0 and it.truthy(it.compare("Lt", kx, out[i - 1][0])):
            i -= 1
        out.insert(i, (kx, x))
    r = [x for _, x in out]
    return r[::-1] if it.truthy(k.get("reverse", False)) else r


@bi("sorted")
def b_sorted(it, a, k):
    return PList(_sorted(it, a[0], k))


def b_int(it, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise("ValueError", "invalid literal for int()")
    if isinstance(v, (OpaqueStr, SymStr)):
        raise Unsupported("int of symbolic text")
    if isinstance(v, Arr):
        if not it.decide(tm.eq(size(v), ONE)):
            raise PyRaise("TypeError", "only length-1 arrays can be converted")
        v = Num(flat_get(v, Z), True)
    if not is_scalar(v):
        raise PyRaise("TypeError", "int() argument")
    return mknum(truncate(numterm(tv(v))))


def b_float(it, a, k):
    if not a:
        return Num(R0)
    v = a[0]
    if isinstance(v, str):
        try:
            if it.read_number is not None:
                return Num(it.read_number(v, float(v)))
            return Num(tm.num(float(v)))
        except ValueError:
            raise PyRaise("ValueError", "could not convert string to float")
    if isinstance(v, Arr):
        if not it.decide(tm.eq(size(v), ONE)):
            raise PyRaise("TypeError", "only length-1 arrays can be converted")
        v = Num(flat_get(v, Z), True)
    if not is_scalar(v):
        raise PyRaise("TypeError", "float() argument")
    t = numterm(tv(v))
    if t.op == "num":
        t = tm.mk("num", (tm.val(t),), R)
    elif t.sort == I:
        t = tm.mk("mul", (tm.mk("num", (Fraction(1),), R), t), R)
    return Num(t)


def b_bool(it, a, k):
    if not a:
        return False
    v = a[0]
    if isinstance(v, Num):
        return mknum(cast(v.t, "b"))
    return it.truthy(v)


def b_list(it, a, k):
    if not a:
        return PList()
    s = it.iterate(a[0])
    if isinstance(s, list):
        return PList(s)
    return PList(head=(s.n, s.get))


def b_tuple(it, a, k):
    return tuple(it.concrete_items(a[0])) if a else ()


def b_str(it, a, k):
    if a and isinstance(a[0], (str, SymStr)):
        return a[0]
    if a and isinstance(a[0], int) and not isinstance(a[0], bool):
        return str(a[0])
    return OpaqueStr() if a else ""


def b_dict(it, a, k):
    d = PDict()
    if a:
        if isinstance(a[0], PDict):
            d.items.update(a[0].items)
        else:
            for kv in it.concrete_items(a[0]):
                x, y = it.concrete_items(kv)
                d.items[it.key(x)] = y
    d.items.update(k)
    return d


def b_set(it, a, k):
    s = PSet()
    if a:
        for x in it.concrete_items(a[0]):
            it.set_add(s, x)
    return s


def b_type(it, a, k):
    v = a[0]
    if isinstance(v, PObj) and v.cls is not None:
        return v.cls
    for n in ("bool", "int", "float", "str", "list", "tuple", "dict", "set", "ndarray"):
        if isinst(it, v, PType(n)):
            return TYPES.get(n) or PType(n)
    return PType("object")


def b_slice(it, a, k):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


TYPES = {"int": PType("int", b_int), "float": PType("float", b_float), "bool": PType("bool", b_bool),
         "list": PType("list", b_list), "tuple": PType("tuple", b_tuple), "str": PType("str", b_str),
         "dict": PType("dict", b_dict), "set": PType("set", b_set), "type": PType("type", b_type),
         "object": PType("object", lambda it, a, k: PObj(None)), "slice": PType("slice", b_slice),
         "frozenset": PType("set", b_set)}


def builtins_table(it):
    t = dict(BUILT)
    t.update(TYPES)
    t["NotImplemented"] = OpaqueStr()
    t["__debug__"] = True
    t["open"] = Builtin("open", textmodel.b_open)
    return t


def b_timer(it, args, kwargs):
    return Num(tm.fresh("time", R))


def b_warn(it, args, kwargs):
    return None


def b_factorial(it, args, kwargs):
    kwargs.pop("exact", None)
    return nary(it, n2(tm.fact), [args[0]], "f") if not is_scalar(args[0]) else Num(tm.fact(numterm(tv(args[0]))), True)


def b_gamma(it, args, kwargs):
    return nary(it, n2(lambda x: tm.fact(tm.sub(x, ONE))), [args[0]], "f")


def hookable(name):
    def f(it, args, kwargs):
        h = it.ghost.get("hook:" + name)
        if h is None:
            raise Unsupported("%s without a contract here" % name)
        return h(it, args, kwargs)
    return Builtin(name, f)


def scal(f):
    def g(it, args, kwargs):
        v = args[0]
        return mknum(f(numterm(tv(v))))
    return g


def externals_table(it):
    t = {}
    np = dict(NUMPY)
    np.update(np_types())
    np["pi"] = Num(tm.PI)
    np["inf"] = np["Inf"] = np["infty"] = Num(tm.INF)
    np["nan"] = np["NaN"] = Num(tm.mnan(tm.TRUE, R0))
    np["newaxis"] = None
    np["float"] = TYPES["float"]
    np["e"] = Num(tm.exp(R1))
    np["linalg"] = Namespace("np.linalg", dict(LINALG))
    np["ma"] = Namespace("np.ma", dict(MA))
    np["random"] = Namespace("np.random", dict(RANDOM))
    np["dtype"] = PType("np.dtype")
    t["numpy"] = Namespace("numpy", np)
    t["numpy.linalg"] = np["linalg"]
    t["numpy.ma"] = np["ma"]
    t["numpy.random"] = np["random"]
    t["scipy"] = Namespace("scipy", {})
    opt = {n: hookable(n) for n in ("minimize", "nnls", "NonlinearConstraint", "LinearConstraint", "Bounds")}
    t["scipy.optimize"] = Namespace("scipy.optimize", opt)
    t["scipy.special"] = Namespace("scipy.special", {"factorial": Builtin("scipy.special.factorial", b_factorial),
                                                     "gamma": Builtin("scipy.special.gamma", b_gamma)})
    t["scipy.integrate"] = Namespace("scipy.integrate", {"trapezoid": NUMPY["trapz"], "trapz": NUMPY["trapz"]})
    for k in ("optimize", "special", "integrate"):
        t["scipy"].table[k] = t["scipy." + k]
    t["numbers"] = Namespace("numbers", {n: PType(n) for n in ("Integral", "Real", "Number", "Complex")})
    t["abc"] = Namespace("abc", {"ABC": PType("ABC"), "ABCMeta": PType("ABCMeta"),
                                 "abstractmethod": Builtin("abstractmethod", lambda it, a, k: a[0])})
    t["timeit"] = Namespace("timeit", {"default_timer": Builtin("timer", b_timer)})
    t["time"] = Namespace("time", {n: Builtin("time." + n, b_timer) for n in ("time", "perf_counter", "process_time")})
    t["warnings"] = Namespace("warnings", {"warn": Builtin("warnings.warn", b_warn),
                                           "catch_warnings": Builtin("catch_warnings", lambda it, a, k: ErrState()),
                                           "simplefilter": Builtin("simplefilter", b_warn)})
    m = {"pi": Num(tm.PI), "inf": Num(tm.INF), "nan": Num(tm.mnan(tm.TRUE, R0)),
         "exp": Builtin("math.exp", scal(tm.exp)), "log": Builtin("math.log", scal(tm.log)),
         "sqrt": Builtin("math.sqrt", scal(tm.sqrt)), "cos": Builtin("math.cos", scal(tm.cos)),
         "sin": Builtin("math.sin", scal(tm.sin)), "fabs": Builtin("math.fabs", scal(tm.abs_)),
         "floor": Builtin("math.floor", scal(tm.floor)), "ceil": Builtin("math.ceil", scal(tm.ceil)),
         "isnan": Builtin("math.isnan", scal(tm.isnan)), "isinf": Builtin("math.isinf", scal(tm.isinf)),
         "isfinite": Builtin("math.isfinite", scal(lambda x: tm.not_(tm.or_(tm.isnan(x), tm.isinf(x))))),
         "factorial": Builtin("math.factorial", scal(tm.fact)),
         "pow": Builtin("math.pow", lambda it, a, k: it.binop("Pow", a[0], a[1])),
         "prod": Builtin("math.prod", lambda it, a, k: np_prod(it, a, k)),
         "fsum": Builtin("math.fsum", b_sum)}
    t["math"] = Namespace("math", m)
    ch = Builtin("itertools.chain", lambda it, a, k: PList([x for s in a for x in it.concrete_items(s)]))
    t["itertools"] = Namespace("itertools", {
        "chain": Namespace("itertools.chain", {
            "__call__": ch,
            "from_iterable": Builtin("chain.from_iterable", lambda it, a, k: ch.fn(it, it.concrete_items(a[0]), {}))}),
        "product": Builtin("itertools.product", lambda it, a, k: PList([tuple(x) for x in itertools.product(*[it.concrete_items(s) for s in a], **{q: it.concrete_int(v) for q, v in k.items()})])),
        "combinations": Builtin("itertools.combinations", lambda it, a, k: PList([tuple(x) for x in itertools.combinations(it.concrete_items(a[0]), it.concrete_int(a[1]))])),
        "permutations": Builtin("itertools.permutations", lambda it, a, k: PList([tuple(x) for x in itertools.permutations(it.concrete_items(a[0]), *[it.concrete_int(x) for x in a[1:]])])),
        "accumulate": Builtin("itertools.accumulate", _accumulate),
        "islice": Builtin("itertools.islice", lambda it, a, k: _lazily(it, a[0], lambda s: itertools.islice(s, *[None if x is None else it.concrete_int(x) for x in a[1:]]))),
        "takewhile": Builtin("itertools.takewhile", lambda it, a, k: _lazily(it, a[1], lambda s: itertools.takewhile(lambda x: it.truthy(it.call(a[0], [x], {})), s))),
        "dropwhile": Builtin("itertools.dropwhile", lambda it, a, k: _lazily(it, a[1], lambda s: itertools.dropwhile(lambda x: it.truthy(it.call(a[0], [x], {})), s))),
        "filterfalse": Builtin("itertools.filterfalse", lambda it, a, k: _lazily(it, a[1], lambda s: itertools.filterfalse(lambda x: it.truthy(it.call(a[0], [x], {})), s))),
        "starmap": Builtin("itertools.starmap", lambda it, a, k: _lazily(it, a[1], lambda s: (it.call(a[0], it.concrete_items(x), {}) for x in s))),
        "pairwise": Builtin("itertools.pairwise", lambda it, a, k: PList([tuple(x) for x in itertools.pairwise(it.concrete_items(a[0]))])),
        "zip_longest": Builtin("itertools.zip_longest", lambda it, a, k: PList([tuple(x) for x in itertools.zip_longest(*[it.concrete_items(s) for s in a], **k)])),
        "compress": Builtin("itertools.compress", lambda it, a, k: PList([x for x, c in zip(it.concrete_items(a[0]), it.concrete_items(a[1])) if it.truthy(c)])),
        "repeat": Builtin("itertools.repeat", lambda it, a, k: PList([a[0]] * it.concrete_int(a[1])) if len(a) > 1 else textmodel.InfGen(lambda i: a[0])),
        "count": Builtin("itertools.count", lambda it, a, k: _count(it, *getargs(a, k, ["start", "step"], [0, 1]))),
    })
    t["functools"] = Namespace("functools", {
        "partial": Builtin("functools.partial", lambda it, a, k: Builtin("partial", lambda i, b, kk: i.call(a[0], a[1:] + b, {**k, **kk}))),
        "wraps": Builtin("functools.wraps", lambda it, a, k: Builtin("wraps", lambda i, b, kk: b[0])),
        "reduce": Builtin("functools.reduce", _reduce)})
    t["collections"] = Namespace("collections", {"OrderedDict": TYPES["dict"]})
    t["collections.abc"] = Namespace("collections.abc", {n: PType(n) for n in ("Iterable", "Sequence", "Callable", "Collection")})
    t["typing"] = Namespace("typing", {})
    t["operator"] = Namespace("operator", {
        "itemgetter": Builtin("operator.itemgetter", lambda it, a, k: Builtin("itemgetter", lambda i, b, kk: i.getitem(b[0], a[0]))),
        "add": Builtin("operator.add", lambda it, a, k: it.binop("Add", a[0], a[1]))})
    t["copy"] = Namespace("copy", {"copy": Builtin("copy.copy", lambda it, a, k: _pycopy(it, a[0])),
                                   "deepcopy": Builtin("copy.deepcopy", lambda it, a, k: _pycopy(it, a[0], True))})
    t.update(textmodel.tables())
    t["__future__"] = Namespace("__future__", {"annotations": None})
    return t


def _lazily(it, src, f):
    """An iterator tool: lazy on files and generators, on a listed sequence otherwise."""
    if isinstance(src, (textmodel.TextFile, textmodel.LazyGen)):
        return textmodel.LazyGen(f(iter(textmodel.Lines(src))))
    return PList(list(f(it.concrete_items(src))))


def _count(it, start, step):
    return textmodel.InfGen(lambda i: it.binop("Add", start, it.binop("Mult", mknum(i), step)))


def _pycopy(it, v, deep=False):
    if isinstance(v, Arr):
        return copy_arr(it, v)
    if isinstance(v, PList):
        return PList([_pycopy(it, x, True) if deep else x for x in v.items], v.head)
    if isinstance(v, PObj):
        return PObj(v.cls, {k: _pycopy(it, x, True) if deep else x for k, x in v.attrs.items()})
    if isinstance(v, PDict):
        return PDict({k: _pycopy(it, x, True) if deep else x for k, x in v.items.items()}, v.fn)
    return v


def _accumulate(it, a, k):
    items = it.iterate(a[0])
    init = k.get("initial")
    if isinstance(items, Seq):
        if len(a) > 1:
            raise Unsupported("accumulate with a function")
        f = lambda i: numterm(tv(items.get(i)))
        if init is None:
            return PList(head=(items.n, lambda i: Num(tm.sum_(Z, tm.add(i, ONE), f))))
        t0 = tv(init)
        return PList(head=(tm.add(items.n, ONE), lambda i: Num(tm.add(t0, tm.sum_(Z, i, f)))))
    out = []
    acc = init
    if init is not None:
        out.append(init)
    for x in items:
        acc = x if acc is None else (it.call(a[1], [acc, x], {}) if len(a) > 1 else it.binop("Add", acc, x))
        out.append(acc)
    return PList(out)


def _reduce(it, a, k):
    items = it.concrete_items(a[1])
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = it.call(a[0], [acc, x], {})
    return acc
