"""Cases of tools/difftest.py: each is run by the interpreter on symbolic inputs and by Python with the real NumPy.

Arguments by name: a, b float vectors (n), p positive vector (n), s sorted vector (n), m matrix (n, k), g matrix (n, 3),
w small non-negative integers (n), c truth values (n), x, y scalars, z positive scalar, n, k sizes, ix valid indices (n)."""
import math
import numpy as np


def arith(a, b, x): return a * b - x / (1 + a * a) + 2 * b ** 2 - a // 1.0
def mod(a, z): return a % z
def imod(w): return (w + 5) % 3 + w // 2 - (-w) // 2 + (-w) % 4
def power(p, x): return p ** x + p ** -1.5 + 2.0 ** x
def neg(a): return -a + (+a) * 2 - abs(a)
def comp(a, b): return (a < b) & (a > -0.5) | ~(b <= 0) ^ (a >= 1)
def chain(x, y): return 1 if x < y < 2 else 2 if x == y else 3
def exp(a): return np.exp(-a * a) + np.expm1(a) + np.exp2(a)
def log(p): return np.log(p) + np.log10(p) + np.log2(p) + np.log1p(p)
def sqrt(p): return np.sqrt(p) + np.cbrt(p) + np.cbrt(-p)
def trig(a): return np.cos(a) + np.sin(a) ** 2 + np.tan(a / 9) + np.deg2rad(a)
def fl(a): return np.floor(a) + 2 * np.ceil(a) + 5 * np.trunc(a) + 7 * np.rint(a) + np.round(a, 2) + np.sign(a)
def rnd(x): return round(x) + round(x, 1) + int(x) + math.floor(x) + math.ceil(x)
def mm(a, b, x): return np.maximum(a, b) + 2 * np.minimum(a, x) + np.fmax(b, x) - np.fmin(a, b) + np.clip(a, -1, 1) + np.clip(b, None, x)
def where(a, b, c): return np.where(c, a, b) + np.where(a > 0, 1, -1) + np.select([a > 1, b > 0], [a, b], 3.0)
def hyp(a, b): return np.hypot(a, b) + np.square(a) + np.reciprocal(1 + b * b) + np.absolute(a)
def ufo(a, b):
    r = np.empty_like(a)
    np.multiply(a, b, out=r)
    np.add(r, 1, out=r)
    np.divide(r, 2.0, r)
    return r
def ufw(a, p):
    return np.divide(a, p, out=np.zeros_like(a), where=p > 1)
def inplace(a, b):
    r = a.copy()
    r += b
    r *= 2
    r[0] -= 5
    r[1:] /= 2.0
    r[::2] = b[::2]
    r[-1] = 9
    return r
def masked_set(a, c):
    r = np.array(a)
    r[c] = 7.0
    r[r < 0] = -r[r < 0]
    np.putmask(r, r > 2, 2.5)
    np.copyto(r, 1.25, where=r < 0.1)
    return r
def sums(a, m): return np.sum(a) + m.sum() + np.add(a.sum(), np.mean(m)) + a.mean() + np.prod(a) + np.average(a) + sum(a)
def sumax(m): return np.sum(m, axis=1) + m.sum(-1) + m.mean(axis=1)
def sumax0(m): return m.sum(axis=0) + np.sum(m, 0) + np.prod(m, axis=0)
def keep(m): return m / m.sum(axis=1, keepdims=True) + m.max(axis=1, keepdims=True)
def ext(a, m): return np.max(a) + 2 * np.min(m) + a.max() - m.min() + np.ptp(a) + max(a) - min(a[0], 0.1) + np.amax(a)
def extax(m): return np.max(m, axis=1) - m.min(axis=1) + np.abs(m).max(1)
def maxinit(a): return np.max(a, initial=0.0) + np.min(a, initial=-0.5)
def anyall(a, c): return [np.any(a > 1), np.all(c), (a < 0).any(), c.all(), any(x > 2 for x in a), all([x > -9 for x in a])]
def cum(a): return np.cumsum(a) + np.cumsum(a)[::-1]
def cum1(m): return np.cumsum(m, axis=1) + np.cumsum(m, axis=0)
def cump(p): return np.cumprod(p)
def diff(a, m): return np.diff(a) ** 2 + np.diff(m, axis=0)[:, 0] + np.diff(m[:, 0])
def argm(a): return [np.argmin(a), np.argmax(a), a.argmax(), np.argmax(a > 0)]
def dots(a, b): return np.dot(a, b) + a @ b + np.inner(a, b) + np.vdot(a, b) + a.dot(b) + np.einsum("i,i->", a, b)
def mv(m, a): return m.T @ a + np.dot(a, m) + np.einsum("ij,i->j", m, a) + a @ m + np.tensordot(a, m, 1)
def mmul(m): return m @ m.T + np.matmul(m, np.transpose(m)) + np.einsum("ij,kj->ik", m, m)
def outer(a, b): return np.outer(a, b) + a[:, None] * b[None, :] + np.multiply.outer(a, b) + a[:, np.newaxis] - b
def ein(m, a): return np.einsum("ij,i->ij", m, a) + np.einsum("ij->ij", m)
def ein2(m): return np.einsum("ij,ij->i", m, m)
def norm(a, g): return np.linalg.norm(a) + np.linalg.norm(g, axis=1)
def norm1(a): return np.linalg.norm(a, ord=1) + np.linalg.norm(a, np.inf)
def det(x, y): return np.linalg.det(np.array([[x, y, 1.0], [2.0, y, x], [x * y, 1.0, 3.0]]))
def cross(g, x): return np.cross(g[0], g[-1]) * x
def trapz(s, a): return np.sum((a[1:] + a[:-1]) * np.diff(s)) / 2
def zeros(n, k): return np.zeros((n, k)) + np.ones(k) * 2 + np.full((n, 1), 3.5) + np.eye(n, k) + np.identity(n)[:, :1]
def likes(a): return np.zeros_like(a) + np.ones_like(a) + np.full_like(a, 2.5)
def rng(n, x, z): return np.arange(n) * x + np.linspace(x, x + z, n) + np.arange(1, n + 1) ** 2
def rng2(k): return np.arange(0, 2 * k, 2) + np.arange(k)[::-1]
def linsp(x, z): return np.linspace(x, x + z, 5, endpoint=False)
def arr(x, y): return np.array([[x, y], [y, 2 * x], [1, 2]])
def asarr(a): return np.asarray(a, dtype=float) + np.array(a, copy=True) + np.asarray([float(q) for q in a]) + np.array(list(a))
def cat(a, b, x): return np.concatenate((a, b, [x], [1.0, 2.0]))
def hst(a, b, x): return np.hstack([a, x, b])
def vst(a, b): return np.vstack((a, b)) + np.stack([b, a]) + np.array([a, b])
def vstk(a, b): return np.vstack((a, b)).T + np.column_stack((a, b)) + np.stack((a, b), axis=1) + np.stack([a, b], -1)
def app(a, x): return np.append(a, x) + np.append(x, a)
def insert(a, x, k): return np.insert(a, 1, x) + np.insert(a, 0, [x]) + np.insert(a, len(a), 2.0)
def delete(a): return np.delete(a, 1) + np.delete(a, -1) + np.delete(a, 0)
def tile(a): return np.tile(a, 2)
def rep(a): return np.repeat(a, 3)
def flip(a, m): return np.flip(a) + a[::-1] + np.flip(m, 0)[:, 0] + m[:, ::-1][:, 0]
def roll(a): return np.roll(a, 1) + np.roll(a, -2)
def split(a):
    p, q = np.split(np.concatenate((a, 2 * a)), 2)
    return p * q
def asplit(a):
    p, q = a[:2], a[2:]
    return np.concatenate((q, p))
def resh(m, n, k): return m.reshape(k, n) + m.reshape((k, -1)) + m.ravel().reshape(k, n) + m.flatten().reshape(-1, n)
def resh3(g, n): return g.reshape(n, 3, 1)[:, 1:, 0] + g.reshape(n, 1, 3)[:, 0, :2]
def trans(m): return m.T + m.transpose() + np.swapaxes(m, 0, 1) + np.moveaxis(m, 1, 0)
def exd(a): return np.expand_dims(a, 0) + a[None] + np.atleast_2d(a)
def sqz(a): return np.squeeze(a[:, None]) + a.reshape(1, -1).squeeze() + np.ravel(a) + np.atleast_1d(a)
def bc(a, k): return np.broadcast_to(a, (k, len(a))) + np.zeros((k, 1))
def mgrid(a, b): return np.stack([q.ravel() for q in np.meshgrid(a, b, indexing="ij")], axis=1)
def mgridxy(a, b): return np.meshgrid(a, b)[0] * 2 + np.meshgrid(a, b)[1]
def indices(n): return np.indices((n, 2)).reshape(2, -1).T
def slices(m): return m[1:, :-1] + m[:-1, 1:] + m[1:, [0]] * 2
def elem(m): return m[0, 1] + m[-1, -1] + m[0][1] + m[:, 0][-1] + m[1:][0, 0]
def fancy(a, ix): return a[ix] + np.take(a, ix) + a.take(ix)
def fancy2(m, ix): return m[ix] + np.take(m, ix, axis=0) + m[ix, :]
def fancy3(m, ix): return m[ix, 0] + m[np.arange(len(ix)), 1]
def bidx(a, c): return np.sum(a[c]) + a[~c].sum() * 2 + np.count_nonzero(c) + len(a[c]) + c.sum() + np.compress(c, a).sum()
def bset(a, c, b):
    r = a.copy()
    r[c] = b[c] + 1
    return r
def nz(a, c): return a[np.nonzero(c)[0]].sum() + a[np.where(~c)[0]].sum() * 3 + a[np.flatnonzero(c)].sum()
def ssr(s, x): return [np.searchsorted(s, x), np.searchsorted(s, x, side="right"), s.searchsorted(s[1])]
def srt(a): return np.sort(a) + sorted(a)
def close(a, b, x): return [np.allclose(a, a), np.isclose(x, x + 1e-12), np.array_equal(a, b), np.array_equal(a, a), np.allclose(a, b, atol=9)]
def isf(a): return np.isfinite(a) & ~np.isnan(a) & ~np.isinf(a)
def cast(a, w): return a.astype(int) + w.astype(float) + (a > 0).astype(int) + np.int64(3) + a.astype(bool)
def ibuf(w, a):
    r = w.copy()
    r[0] = 2.7
    return r + np.zeros(len(w), dtype=int)
def marr(a, p): return np.ma.filled(a / np.ma.masked_less_equal(p, 1.0), fill_value=0.5)
def marr2(a, p): return (a * np.ma.masked_where(p > 1, p)).filled(9.0) + np.ma.masked_greater(a, 0.5).filled(-1)
def marr3(p): return np.ma.log(np.ma.masked_less(p, 0.7)).filled(0.0) + np.ma.masked_inside(p, 0.5, 1.5).filled(4.0)
def marr4(p): return np.ma.masked_outside(p, 0.5, 1.5).filled(4.0) + np.ma.masked_equal(p, p[0]).filled(0.1) + np.ma.masked_values(p, p[1]).filled(3)
def marr5(a, p): return np.ma.sum(np.ma.masked_less(p, 1.0)) + np.ma.masked_less(p, 1.0).mask.sum()
def var(a): return np.var(a) + np.std(a) + a.std()
def dg(m): return np.trace(m @ m.T) + np.diag(m @ m.T).sum() + (m @ m.T).diagonal()[0]
def diagm(a): return np.diag(a) + np.diag(a)[::-1]
def ndenum(m):
    t = 0.0
    for (i, j), v in np.ndenumerate(m):
        t += v * (i + 2 * j)
    return t
def loops(a, b):
    t, r = 0.0, []
    for i, (u, v) in enumerate(zip(a, b)):
        t += u * v * i
        r.append(t)
    return np.array(r)
def comp_(a): return np.array([q * i for i, q in enumerate(a) if q > 0] + [0.0]).sum()
def gen(a): return sum(q * q for q in a) + max(q for q in a) + len([1 for q in a if q > 1])
def wh(x):
    i = 0
    while i < 5 and x < 3:
        x += 1
        i += 1
    return x + i
def unpack(a):
    f, *r = [a[0], a[1], a[2]]
    return f + r[0] * r[-1] + len(r)
def kwd(x, *args, y=2.0, **kw): return x * y + len(args) + len(kw)
def lam(a): return (lambda q, r=2: q * r)(a) + list(map(lambda q: q + 1, [a, a]))[1]
def mathf(z): return math.sqrt(z) + math.exp(-z) + math.log(z) + math.pi * math.pow(z, 1.5) + math.fabs(-z) + math.factorial(5)
def dct(x):
    d = {"a": x, "b": 2 * x}
    d["c"] = d.pop("a") + d.get("z", 1.0)
    d.update(e=4.0)
    return sum(d.values()) + len(d) + ("b" in d)
def strs(x): return x + len("abc") + ("abc".upper() == "ABC") + int("12") + float("1.5") + ("%d" % 3 == "3") + "a,b".split(",").index("b")
def lst(x, y):
    r = [x, y] + [1.0] * 2
    r.insert(1, 5.0)
    r.extend([2.0, 3.0])
    del r[0]
    r.pop()
    return np.array(r[::-1] + r[1:3])
def tern(x): return (x if x > 0 else -x) + (x and 2) + (not x) + (x or 3)
def trye(x):
    try:
        if x > 0:
            raise ValueError("a")
        return x
    except (TypeError, ValueError):
        return 2 * x
    finally:
        x = 3
def ema(a): return np.exp(-np.abs(a)[:, None] * np.arange(3)) @ np.array([1.0, 2.0, 3.0])
def hst2(m): return np.hstack((m, m[:, :1])) + np.concatenate((m, m[:, :1]), axis=1) + np.append(m, m[:, :1], axis=1)
def vst2(m): return np.concatenate([m, m[:1]]) + np.vstack([m, m[0]])
def setcol(m, a):
    r = np.zeros((m.shape[0], 2 * m.shape[1]))
    r[:, : m.shape[1]] = m
    r[:, m.shape[1] :] = 2 * m
    r[:, 0] = a
    r[0, :] += 1
    r[-1] *= 2
    return r
def views(a):
    r = a.copy()
    v = r[1:]
    v[0] = 99.0
    u = r.reshape(-1, 1)
    u[0, 0] = 5.0
    w = r.T
    w[-1] = 3.0
    return r
def newr(m): return np.delete(m, 0, axis=1) + m[:, 1:]
def divm(w): return divmod(7, 2)[0] + w // 3 + np.mod(w, 2) + np.floor_divide(w, 2)
def bools(c, a): return np.logical_and(c, a > 0) | np.logical_not(c) & np.logical_or(a > 1, a < -1) ^ np.logical_xor(c, a > 0)
def boolsum(c): return c.sum() + c.mean() + c.astype(float).sum() + sum(c)
def nan0(a): return np.nan_to_num(a) + np.nan_to_num(a, nan=2.0)
def shp(m, a): return m.shape[0] * 100 + m.shape[1] * 10 + m.ndim + m.size + len(m) + np.size(a) + np.ndim(a) + np.shape(m)[1]
def arb(m): return m.sum(axis=(0, 1)) + m.sum(axis=tuple(range(m.ndim)))
def partn(a):
    before, found, after = "x[AB]3S(2)".partition("[AB]")
    n, l = "4P"
    return a * (len(before) + 10 * len(after)) + int(n) + (1 if found else 0) + "SPDF".index(l) + int("7-8".rpartition("-")[2])
def strm(a): return a * len("a b  c".split(maxsplit=1)) + len("-".join(["x", "yz"])) + int("0" + "12".zfill(4)) + len("a,b".rsplit(",", 1))
def hsp(m):
    l, r = np.hsplit(np.hstack((m, 2 * m)), 2)
    u, d = np.vsplit(np.vstack((m, 3 * m)), 2)
    return l + r + u + d
def nxt(a):
    g = (x for x in [1.0, 2.0, 3.0] if x > 1.5)
    return a * next(g) + next(g) + next(g, 7.0) + next((x for x in [1, 2] if x > 5), 11)
def colst(a): return np.column_stack([a, 2 * a, a + 1])
from functools import lru_cache, reduce, partial
import itertools
def lru(a):
    @lru_cache(maxsize=None)
    def cached(n):
        return [n, 2]
    v = cached(3)
    v.append(5)
    return a * len(cached(3)) + len(cached(4)) + cached(3)[2]
class Box:
    def __init__(self, x): self.x, self.n = x, 0
    @lru_cache
    def get(self, k):
        self.n += 1
        return self.x * k
def lrum(a):
    b, c = Box(a), Box(2 * a)
    return b.get(2) + b.get(2) + c.get(2) + b.n + 10 * c.n
def itools(a):
    r = list(itertools.chain([1, 2], (3,))) + list(itertools.chain.from_iterable([[4], [5]]))
    r += [x * y for x, y in zip(itertools.count(1), [2, 3])] + [i + j for i, j in zip(itertools.repeat(4), [1, 2])]
    r += list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])) + list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1]))
    r += [x - y for x, y in itertools.pairwise([1, 4, 9])] + list(itertools.starmap(lambda x, y: x * y, [(2, 3), (4, 5)]))
    r += list(itertools.islice(itertools.count(5), 2)) + list(itertools.compress([1, 2, 3], [True, False, True]))
    return a * sum(x * (i + 1) for i, x in enumerate(r)) + partial(lambda x, y: x - y, 5)(3) + reduce(lambda x, y: x * y, [1, 2, 3])
def cntz(a): return np.array([x * i for i, x in zip(itertools.count(1), a)])
from dataclasses import dataclass
@dataclass
class Pt:
    x: float
    y: float = 2.0
    def tot(self): return self.x + self.y
def dcl(a): return Pt(a).tot() + Pt(y=a, x=1.0).x + Pt(a, 3).y
def outs(a, b):
    r, q, s = a.copy(), np.zeros(len(a)), np.zeros(1)
    np.clip(r, -0.5, None, out=r)
    np.multiply(a, b, out=q)
    np.sum(a, keepdims=True, out=s)
    u = np.cumsum(b, out=b.copy())
    np.exp(-np.abs(r), out=r)
    return r + q + s[0] + u
def outi(ix, a):
    r = ix.copy()
    try:
        np.multiply(a, 1.5, out=r)
    except TypeError:
        r = r + 1
    try:
        r *= 0.5
    except TypeError:
        r = r + 10
    r[0] = 2.7
    z = np.zeros_like(r)
    z[:] = a[: len(z)] if len(z) <= len(a) else 1.5
    return r + z
def intden(ix): return np.zeros_like(ix) + ix * 0.5 + np.full_like(ix, 2.9) + np.array([1.5 * ix[0]], dtype=ix.dtype)[0]
