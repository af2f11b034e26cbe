"""Hash-consed terms: reals, integers, booleans, and uninterpreted values.

Real terms are kept as written (no cancellation), so that definedness of what the code
computes can be judged; integer terms (indices, sizes) are kept in polynomial normal form.
Binders (Sum, Max, Min, All, Ex) use height-named bound variables, so alpha-equivalent
terms are identical objects.
"""
from fractions import Fraction
import itertools
import zlib

R, I, B, U = "R", "I", "B", "U"


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "_h", "_s", "sp", "__weakref__")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic term used as a Python truth value: %s" % show(self)[:200])

    # convenience arithmetic for specifications
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return pow_(self, lift(o))
    def __rpow__(self, o): return pow_(lift(o), self)
    def __lt__(self, o): return lt(self, lift(o))
    def __le__(self, o): return le(self, lift(o))
    def __gt__(self, o): return lt(lift(o), self)
    def __ge__(self, o): return le(lift(o), self)


_table = {}
_ids = itertools.count(1)
EMPTY = frozenset()


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        t._fv = None
        t._h = None
        t._s = None
        t.sp = op in ("inf", "ninf", "mnan") or (
            op == "ite" and (args[1].sp or args[2].sp))
        _table[key] = t
    return t


def kids(t):
    if t.op in ("num", "sym", "bv"):
        return ()
    if t.op == "app":
        return t.args[1:]
    if t.op in BINDERS:
        return t.args[1:]
    return t.args


BINDERS = {"Sum", "Max", "Min", "All", "Ex", "Prod"}


def num(x, sort=None):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return mk("num", (Fraction(x),), sort or I)
    if isinstance(x, float):
        if x != x:
            return mnan(TRUE, num(Fraction(0)))
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return NINF
        return mk("num", (Fraction(repr(x)),), R)
    if isinstance(x, Fraction):
        return mk("num", (x,), sort or R)
    raise TypeError(type(x))


def lift(x):
    return x if isinstance(x, T) else num(x)


def sym(name, sort=R):
    return mk("sym", (name,), sort)


_fresh = itertools.count(1)


def fresh(prefix="v", sort=I):
    return mk("sym", ("%s!%d" % (prefix, next(_fresh)),), sort)


def app(f, *args, sort=R):
    return mk("app", (f,) + tuple(lift(a) for a in args), sort)


TRUE = mk("true", (), B)
FALSE = mk("false", (), B)
ZERO = num(0)
ONE = num(1)
PI = mk("sym", ("pi",), R)
INF = mk("inf", (), R)
NINF = mk("ninf", (), R)


def isnum(t):
    return t.op == "num"


def val(t):
    return t.args[0]


# ------------------------------------------------------------------ special values
def mnan(flag, v):
    """A real that is NaN when flag holds, v otherwise."""
    if flag is FALSE:
        return v
    if v.op == "mnan":
        return mnan(or_(flag, v.args[0]), v.args[1])
    return mk("mnan", (flag, v), R)


def split_nan(t):
    """(flag, value) with value free of mnan at the top (through ite)."""
    if t.op == "mnan":
        return t.args
    if t.op == "ite" and t.sp:
        f1, v1 = split_nan(t.args[1])
        f2, v2 = split_nan(t.args[2])
        return ite(t.args[0], f1, f2), ite(t.args[0], v1, v2)
    return FALSE, t


def isnan(t):
    return split_nan(t)[0]


def isinf(t):
    f, v = split_nan(t)
    if v.op in ("inf", "ninf"):
        return not_(f)
    if v.op == "ite" and v.sp:
        return and_(not_(f), ite(v.args[0], isinf(v.args[1]), isinf(v.args[2])))
    return FALSE


def _lift_special(fn, *xs):
    """Apply fn to special operands by distributing over ite and nan."""
    for i, x in enumerate(xs):
        if x.op == "mnan":
            ys = list(xs)
            ys[i] = x.args[1]
            return mnan(x.args[0], fn(*ys))
        if x.op == "ite" and x.sp:
            a, b = list(xs), list(xs)
            a[i], b[i] = x.args[1], x.args[2]
            return ite(x.args[0], fn(*a), fn(*b))
    return None


# ------------------------------------------------------------------ integer polynomials
def _ipoly(t):
    """Integer polynomial of an integer term: {monomial(tuple of term ids sorted): coeff}."""
    if t.op == "num":
        c = t.args[0]
        return {(): c} if c else {}
    if t.op == "add":
        out = {}
        for a in t.args:
            for m, c in _ipoly(a).items():
                out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c}
    if t.op == "mul":
        out = {(): Fraction(1)}
        for a in t.args:
            p = _ipoly(a)
            nxt = {}
            for m1, c1 in out.items():
                for m2, c2 in p.items():
                    m = tuple(sorted(m1 + m2))
                    nxt[m] = nxt.get(m, 0) + c1 * c2
            out = nxt
        return {m: c for m, c in out.items() if c}
    return {(t.id,): Fraction(1)} if _remember(t) else None


_byid = {}


def _remember(t):
    _byid[t.id] = t
    return True


def _from_ipoly(p):
    if not p:
        return ZERO
    parts = []
    for m in sorted(p):
        c = p[m]
        fs = tuple(_byid[i] for i in m)
        if not fs:
            parts.append(num(int(c)) if c.denominator == 1 else mk("num", (c,), I))
        elif c == 1 and len(fs) == 1:
            parts.append(fs[0])
        else:
            parts.append(mk("mul", ((mk("num", (c,), I),) if c != 1 else ()) + fs, I))
    if len(parts) == 1:
        return parts[0]
    return mk("add", tuple(parts), I)


def inorm(t):
    return _from_ipoly(_ipoly(t))


# ------------------------------------------------------------------ constructors
def _join(sorts):
    return I if all(s == I for s in sorts) else R


def add(*xs):
    if any(x.sp for x in xs):
        r = _lift_special(add, *xs)
        if r is not None:
            return r
        sg = {x.op for x in xs if x.sp}
        if len(sg) == 2:
            return mnan(TRUE, num(Fraction(0)))
        return INF if "inf" in sg else NINF
    flat, c, rs = [], Fraction(0), False
    for x in xs:
        if x.sort == R:
            rs = True
        if x.op == "add":
            for y in x.args:
                if y.op == "num":
                    c += y.args[0]
                else:
                    flat.append(y)
        elif x.op == "num":
            c += x.args[0]
        else:
            flat.append(x)
    if not rs:
        return _from_ipoly(_ipoly(mk("add", tuple(flat) + (mk("num", (c,), I),), I)))
    if not flat:
        return mk("num", (c,), R)
    if c:
        flat.append(mk("num", (c,), R))
    if len(flat) == 1:
        return flat[0]
    return mk("add", tuple(flat), R)


def mul(*xs):
    if any(x.sp for x in xs):
        r = _lift_special(mul, *xs)
        if r is not None:
            return r
        s = 1
        for x in xs:
            if x.op == "ninf":
                s = -s
            elif x.op == "inf":
                pass
            elif x.op == "num" and val(x) != 0:
                s = s if val(x) > 0 else -s
            else:
                raise NotImplementedError("product of infinity and a symbolic value")
        return INF if s > 0 else NINF
    flat, c, rs = [], Fraction(1), False
    for x in xs:
        if x.sort == R:
            rs = True
        if x.op == "mul":
            for y in x.args:
                if y.op == "num":
                    c *= y.args[0]
                else:
                    flat.append(y)
        elif x.op == "num":
            c *= x.args[0]
        else:
            flat.append(x)
    if not rs:
        return _from_ipoly(_ipoly(mk("mul", tuple(flat) + (mk("num", (c,), I),), I)))
    if not flat:
        return mk("num", (c,), R)
    if c != 1:
        flat.insert(0, mk("num", (c,), R))
    if len(flat) == 1:
        return flat[0]
    return mk("mul", tuple(flat), R)


def neg(x):
    if x.op == "inf":
        return NINF
    if x.op == "ninf":
        return INF
    return mul(num(-1), x)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    """Real division (undefined at zero denominators)."""
    if a.sp or b.sp:
        r = _lift_special(div, a, b)
        if r is not None:
            return r
        if b.sp and not a.sp:
            return num(Fraction(0))
        raise NotImplementedError("infinity divided")
    if b.op == "num" and val(b) != 0:
        return mul(mk("num", (1 / val(b),), R), a)
    return mk("div", (a, b), R)


def pow_(a, b):
    if a.sp or b.sp:
        r = _lift_special(pow_, a, b)
        if r is not None:
            return r
        raise NotImplementedError("power of infinity")
    if b.op == "num":
        e = val(b)
        if e == 1:
            return a
        if e == 0:
            return num(Fraction(1)) if a.sort == R or b.sort == R else ONE
        if a.op == "num" and e.denominator == 1 and (e > 0 or val(a) != 0) and abs(e) < 200:
            v = val(a) ** int(e)
            return mk("num", (v,), I if a.sort == I and b.sort == I and e > 0 else R)
        if a.sort == I and b.sort == I and e > 0 and e <= 6:
            return mul(*([a] * int(e)))
    return mk("pow", (a, b), R)


def sqrt(a):
    if a.sp:
        return _lift_special(sqrt, a)
    if a.op == "num":
        n, d = val(a).numerator, val(a).denominator
        if n >= 0:
            import math
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return mk("num", (Fraction(rn, rd),), R)
    return mk("pow", (a, num(Fraction(1, 2))), R)


def exp(a):
    if a.sp:
        r = _lift_special(exp, a)
        return r if r is not None else (INF if a.op == "inf" else num(Fraction(0)))
    if a.op == "num" and val(a) == 0:
        return num(Fraction(1))
    return mk("exp", (a,), R)


def log(a):
    if a.sp:
        r = _lift_special(log, a)
        return r if r is not None else INF
    if a.op == "num" and val(a) == 1:
        return num(Fraction(0))
    return mk("log", (a,), R)


def cos(a):
    return mk("cos", (a,), R)


def sin(a):
    return mk("sin", (a,), R)


def abs_(a):
    if a.sp:
        r = _lift_special(abs_, a)
        return r if r is not None else INF
    if a.op == "num":
        return mk("num", (abs(val(a)),), a.sort)
    if a.op == "abs":
        return a
    return mk("abs", (a,), a.sort)


def floor(a):
    if a.sort == I:
        return a
    if a.op == "num":
        return num(val(a).__floor__())
    return mk("floor", (a,), I)


def ceil(a):
    if a.sort == I:
        return a
    if a.op == "num":
        return num(val(a).__ceil__())
    return mk("ceil", (a,), I)


def fact(a):
    if a.op == "num" and val(a).denominator == 1 and 0 <= val(a) <= 60:
        import math
        return mk("num", (Fraction(math.factorial(int(val(a)))),), R)
    return mk("fact", (a,), R)


def idiv(a, b):
    if a.op == "num" and b.op == "num" and val(b) != 0:
        return num(int(val(a) // val(b)))
    if b.op == "num" and val(b) == 1:
        return a
    return mk("idiv", (a, b), I)


def imod(a, b):
    if a.op == "num" and b.op == "num" and val(b) != 0:
        return num(int(val(a) % val(b)))
    if b.op == "num" and val(b) == 1:
        return ZERO
    return mk("imod", (a, b), I)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == B:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort != b.sort:
        s = R if {a.sort, b.sort} == {R, I} else U
    else:
        s = a.sort
    # flatten repeated conditions
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), s)


def min2(a, b):
    return ite(le(a, b), a, b)


def max2(a, b):
    return ite(le(b, a), a, b)


# ------------------------------------------------------------------ booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    if a.op == "All":
        return rebind("Ex", a, not_)
    if a.op == "Ex":
        return rebind("All", a, not_)
    return mk("not", (a,), B)


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == "and" else (x,)):
            if y is TRUE or y.id in seen:
                continue
            if y is FALSE:
                return FALSE
            seen.add(y.id)
            out.append(y)
    for y in out:
        n = not_(y) if y.op in ("not", "le", "lt", "eq") else None
        if n is not None and n.id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), B)


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == "or" else (x,)):
            if y is FALSE or y.id in seen:
                continue
            if y is TRUE:
                return TRUE
            seen.add(y.id)
            out.append(y)
    for y in out:
        n = not_(y) if y.op in ("not", "le", "lt", "eq") else None
        if n is not None and n.id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), B)


def implies(a, b):
    return or_(not_(a), b)


def _cmp_special(fn, a, b):
    fa, va = split_nan(a)
    fb, vb = split_nan(b)
    if fa is not FALSE or fb is not FALSE:
        return and_(not_(fa), not_(fb), fn(va, vb))
    for i, x in enumerate((a, b)):
        if x.op == "ite" and x.sp:
            y, z = [a, b], [a, b]
            y[i], z[i] = x.args[1], x.args[2]
            return ite(x.args[0], fn(*y), fn(*z))
    return None


_RANK = {"ninf": -1, "inf": 1}


def _extremum(fn, a, b):
    """The sign of an extremum (over a range that is not empty: min() and max() of nothing raise)."""
    if a.op in ("Max", "Min") and b.op == "num" and val(b) == 0:
        lo, hi = a.args[1:3]
        return (all_ if a.op == "Max" else ex_)(lo, hi, lambda k: fn(inst(a, k), b))
    if b.op in ("Max", "Min") and a.op == "num" and val(a) == 0:
        lo, hi = b.args[1:3]
        return (all_ if b.op == "Min" else ex_)(lo, hi, lambda k: fn(a, inst(b, k)))
    return None


def le(a, b):
    if a.sp or b.sp:
        r = _cmp_special(le, a, b)
        if r is not None:
            return r
        return TRUE if _RANK.get(a.op, 0) <= _RANK.get(b.op, 0) else FALSE
    if a is b:
        return TRUE
    if a.sort == I and b.sort == I:
        d = sub(b, a)
        if d.op == "num":
            return TRUE if val(d) >= 0 else FALSE
        return mk("le", (ZERO, d), B)
    if a.op == "num" and b.op == "num":
        return TRUE if val(a) <= val(b) else FALSE
    r = _extremum(le, a, b)
    return mk("le", (a, b), B) if r is None else r


def lt(a, b):
    if a.sp or b.sp:
        r = _cmp_special(lt, a, b)
        if r is not None:
            return r
        return TRUE if _RANK.get(a.op, 0) < _RANK.get(b.op, 0) else FALSE
    if a is b:
        return FALSE
    if a.sort == I and b.sort == I:
        return le(add(a, ONE), b)
    if a.op == "num" and b.op == "num":
        return TRUE if val(a) < val(b) else FALSE
    r = _extremum(lt, a, b)
    return mk("lt", (a, b), B) if r is None else r


def eq(a, b):
    if a.sp or b.sp:
        r = _cmp_special(eq, a, b)
        if r is not None:
            return r
        return TRUE if a is b else FALSE
    if a is b:
        return TRUE
    if a.sort == B and b.sort == B:
        return and_(or_(not_(a), b), or_(a, not_(b)))
    if a.sort == I and b.sort == I:
        d = sub(a, b)
        if d.op == "num":
            return TRUE if val(d) == 0 else FALSE
        n = neg(d)
        if n.id < d.id:
            d = n
        return mk("eq", (ZERO, d), B)
    if a.op == "num" and b.op == "num":
        return TRUE if val(a) == val(b) else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), B)


def ne(a, b):
    return not_(eq(a, b))


# ------------------------------------------------------------------ binders
def height(t):
    if t._h is None:
        h = 0
        for k in kids(t):
            h = max(h, height(k))
        if t.op in BINDERS:
            h = max(h, t.args[0] + 1)
        t._h = h
    return t._h


def shash(t):
    """Structural hash independent of creation order and of the names of bound/fresh variables."""
    if t._s is None:
        if t.op == "num":
            k = ("num", str(t.args[0]), t.sort)
        elif t.op == "bv" or (t.op == "sym" and "!" in t.args[0]):
            k = ("var", t.sort)
        elif t.op == "sym":
            k = ("sym", t.args[0], t.sort)
        elif t.op == "app":
            k = ("app", t.args[0] if isinstance(t.args[0], str) else "f") + tuple(shash(a) for a in t.args[1:])
        else:
            hs = [shash(a) for a in kids(t)]
            if t.op in ("add", "mul", "and", "or", "eq"):
                hs.sort()
            k = (t.op,) + tuple(hs)
        a = zlib.crc32(repr(k).encode())
        t._s = (a << 32) | zlib.adler32(repr(k).encode())
    return t._s


def skey(t):
    return (shash(t), t.id)


def _bv(h):
    return mk("bv", (h,), I)


def bind(op, lo, hi, var, body):
    """Binder over lo <= var < hi with body mentioning the symbol var."""
    h = height(body)
    b = subst(body, {var: _bv(h)})
    sort = B if op in ("All", "Ex") else body.sort
    return mk(op, (h, lo, hi, b), sort)


def open_(t, var=None):
    """(lo, hi, var, body) with a fresh index variable."""
    h, lo, hi, b = t.args
    if var is None:
        var = fresh("k")
    return lo, hi, var, subst(b, {_bv(h): var})


def inst(t, x):
    h, lo, hi, b = t.args
    return subst(b, {_bv(h): x})


def rebind(op, t, f):
    lo, hi, v, b = open_(t)
    return bind(op, lo, hi, v, f(b))


def _range(lo, hi):
    lo, hi = lift(lo), lift(hi)
    d = sub(hi, lo)
    return lo, hi, (int(val(d)) if d.op == "num" else None)


UNROLL = 4


def sum_(lo, hi, f):
    lo, hi, n = _range(lo, hi)
    if n is not None and n <= UNROLL:
        if n <= 0:
            return num(Fraction(0))
        return add(*[f(add(lo, num(i))) for i in range(n)])
    v = fresh("k")
    b = f(v)
    if b.op == "num" and val(b) == 0:
        return b
    return bind("Sum", lo, hi, v, b)


def prod_(lo, hi, f):
    lo, hi, n = _range(lo, hi)
    if n is not None and n <= UNROLL:
        if n <= 0:
            return ONE
        return mul(*[f(add(lo, num(i))) for i in range(n)])
    v = fresh("k")
    return bind("Prod", lo, hi, v, f(v))


def max_(lo, hi, f):
    lo, hi, n = _range(lo, hi)
    if n is not None and 1 <= n <= UNROLL:
        r = f(lo)
        for i in range(1, n):
            r = max2(f(add(lo, num(i))), r)
        return r
    v = fresh("k")
    return bind("Max", lo, hi, v, f(v))


def min_(lo, hi, f):
    lo, hi, n = _range(lo, hi)
    if n is not None and 1 <= n <= UNROLL:
        r = f(lo)
        for i in range(1, n):
            r = min2(f(add(lo, num(i))), r)
        return r
    v = fresh("k")
    return bind("Min", lo, hi, v, f(v))


def all_(lo, hi, f):
    lo, hi, n = _range(lo, hi)
    if n is not None and n <= 6:
        return and_(*[f(add(lo, num(i))) for i in range(max(n, 0))])
    v = fresh("k")
    b = f(v)
    if b is TRUE:
        return TRUE
    return bind("All", lo, hi, v, b)


def ex_(lo, hi, f):
    return not_(all_(lo, hi, lambda k: not_(f(k))))


# ------------------------------------------------------------------ substitution
def fv(t):
    """Free symbols (frozenset of terms), including bound-variable markers."""
    if t._fv is None:
        if t.op in ("sym", "bv"):
            t._fv = frozenset((t,))
        else:
            s = EMPTY
            for k in kids(t):
                s = s | fv(k)
            if t.op in BINDERS:
                s = s - {_bv(t.args[0])}
            t._fv = s
    return t._fv


def rebinder(op, lo, hi, v, b):
    d = sub(hi, lo)
    if d.op == "num" and val(d) <= UNROLL and op in ("Sum", "All"):
        n = int(val(d))
        xs = [subst(b, {v: add(lo, num(i))}) for i in range(max(n, 0))]
        if op == "All":
            return and_(*xs)
        if not xs:
            return num(Fraction(0)) if b.sort == R else ZERO
        return add(*xs)
    return bind(op, lo, hi, v, b)


def subst(t, m):
    memo = {}
    keys = set(m)

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t in keys:
            r = m[t]
        elif not (fv(t) & keys):
            r = t
        elif t.op in BINDERS:
            lo, hi, v, b = open_(t)
            r = rebinder(t.op, go(lo), go(hi), v, subst(b, m))
        else:
            r = rebuild(t, [go(k) for k in kids(t)])
        memo[t.id] = r
        return r
    return go(t)


def rebuild(t, ks):
    op = t.op
    if op == "add":
        return add(*ks)
    if op == "mul":
        return mul(*ks)
    if op == "app":
        return mk("app", (t.args[0],) + tuple(ks), t.sort)
    f = _CONS.get(op)
    if f:
        return f(*ks)
    return mk(op, tuple(ks), t.sort)


_CONS = {"div": div, "pow": pow_, "exp": exp, "log": log, "cos": cos, "sin": sin, "abs": abs_,
         "floor": floor, "ceil": ceil, "fact": fact, "idiv": idiv, "imod": imod, "ite": ite,
         "not": not_, "and": and_, "or": or_, "le": le, "lt": lt, "eq": eq, "mnan": mnan}


def replace(t, pred):
    """Bottom-up replacement by a function returning a term or None (not under binders' bv)."""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            if t.op in BINDERS:
                lo, hi, v, b = open_(t)
                r = bind(t.op, go(lo), go(hi), v, replace(b, pred))
            elif kids(t):
                r = rebuild(t, [go(k) for k in kids(t)])
            else:
                r = t
            q = pred(r)
            if q is not None:
                r = q
            memo[t.id] = r
        return r
    return go(t)


def subterms(t, seen=None):
    """All subterms, not descending into binder bodies."""
    seen = set() if seen is None else seen
    if t.id in seen:
        return
    seen.add(t.id)
    yield t
    ks = kids(t)
    if t.op in BINDERS:
        ks = t.args[1:3]
    for k in ks:
        yield from subterms(k, seen)


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 14:
        return "…"
    op = t.op
    if op == "num":
        f = t.args[0]
        return str(f)
    if op == "sym":
        return t.args[0]
    if op == "bv":
        return "$%d" % t.args[0]
    s = [show(k, d + 1) for k in kids(t)]
    if op == "add":
        return "(" + " + ".join(s) + ")"
    if op == "mul":
        return "*".join(s)
    if op == "div":
        return "(%s / %s)" % tuple(s)
    if op == "pow":
        return "%s^%s" % tuple(s)
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(s))
    if op in BINDERS:
        return "%s[%s<=$%d<%s](%s)" % (op, s[0], t.args[0], s[1], s[2])
    if op in ("le", "lt", "eq"):
        return "(%s %s %s)" % (s[0], {"le": "<=", "lt": "<", "eq": "=="}[op], s[1])
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(s)
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(s) + ")"
    if op == "not":
        return "!" + s[0]
    return "%s(%s)" % (op, ", ".join(s)) if s else op
