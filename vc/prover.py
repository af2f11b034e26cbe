"""Assumption context, normal forms for real expressions with sums, sign analysis, prover."""
import itertools
import os
import time
from fractions import Fraction

import z3

from . import terms as tm
from .terms import T, R, I, B, U

E = tm.sym("e!")          # base of the exponential, only inside normal forms
F0, F1 = Fraction(0), Fraction(1)


def linear_body(s):
    """(a, b) when term number t of the integer sum s is a + b t."""
    v = tm.fresh("v")
    p = tm._ipoly(tm.inst(s, v))
    a, b = {}, {}
    for m, x in p.items():
        k = m.count(v.id)
        rest = tuple(i for i in m if i != v.id)
        if k > 1:
            return None
        (b if k else a)[rest] = x
    a, b = tm._from_ipoly(a), tm._from_ipoly(b)
    if v in tm.fv(a) or v in tm.fv(b) or b is tm.ZERO:
        return None
    return a, b


class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.norm_calls = 0
        self.cvc5_calls = 0


STATS = Stats()


# ====================================================================== polynomials
_ITE = {}


def has_ite(t):
    """Does t contain an ite anywhere, binder bodies included?"""
    r = _ITE.get(t.id)
    if r is None:
        r = _ITE[t.id] = t.op == "ite" or any(has_ite(k) for k in tm.kids(t))
    return r


def top_ites(t):
    """Outermost ites of t, not inside binders."""
    if t.op == "ite":
        return [t]
    if t.op in tm.BINDERS or t.op in ("num", "sym", "bv"):
        return []
    out = []
    for k in tm.kids(t):
        for x in top_ites(k):
            if x not in out:
                out.append(x)
    return out


def replace(t, m):
    """Replace whole subterms outside binders."""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            if t in m:
                r = m[t]
            elif t.op in tm.BINDERS or t.op in ("num", "sym", "bv"):
                r = t
            else:
                r = tm.rebuild(t, [go(k) for k in tm.kids(t)])
            memo[t.id] = r
        return r
    return go(t)


class Poly:
    """Sum of coefficient * monomial; monomial = tuple of (base term, exponent), exponent Fraction or Poly."""
    __slots__ = ("d", "_k")

    def __init__(self, d):
        self.d = d
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted((mkey(m), c) for m, c in self.d.items()))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key() == o.key()

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), F0)


_EXTR = {}


def has_extremum(t):
    r = _EXTR.get(t)
    if r is None:
        r = _EXTR[t] = t.op in ("Max", "Min") or any(has_extremum(k) for k in tm.kids(t))
    return r


def mkey(m):
    return tuple((tm.skey(b), (0, e) if isinstance(e, Fraction) else (1, e.key())) for b, e in m)


PZERO = Poly({})
PONE = Poly({(): F1})


def pconst(c):
    return Poly({(): Fraction(c)}) if c else PZERO


def padd(a, b, scale=F1):
    if not b.d or not scale:
        return a
    d = dict(a.d)
    for m, c in b.d.items():
        s = d.get(m, F0) + c * scale
        if s:
            d[m] = s
        else:
            d.pop(m, None)
    return Poly(d)


def exadd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    p = padd(a if isinstance(a, Poly) else pconst(a), b if isinstance(b, Poly) else pconst(b))
    return p.const() if p.is_const() else p


def exmul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    pa = a if isinstance(a, Poly) else pconst(a)
    pb = b if isinstance(b, Poly) else pconst(b)
    p = pmul(pa, pb)
    return p.const() if p.is_const() else p


def is_int(e):
    return isinstance(e, Fraction) and e.denominator == 1


def mmul(m1, m2):
    """Product of monomials: (monomial, coefficient, list of polys to expand)."""
    if not m1:
        return m2, ()
    if not m2:
        return m1, ()
    out = {}
    for b, e in m1:
        out[b] = e
    hit = False
    for b, e in m2:
        if b in out:
            out[b] = exadd(out[b], e)
            hit = True
        else:
            out[b] = e
    expand = []
    if hit:
        for b in list(out):
            e = out[b]
            if isinstance(e, Fraction):
                if e == 0:
                    del out[b]
                elif b.op in ("cos", "sin") and e.denominator == 1 and 2 <= e <= 8:
                    expand.append((b, e))
                    del out[b]
                elif b.op == "abs" and e.denominator == 1 and abs(e) > 1:
                    odd = F0 if e % 2 == 0 else F1 if e > 0 else -F1
                    expand.append((b, e - odd))              # |x|^2 is x^2
                    if odd:
                        out[b] = odd
                    else:
                        del out[b]
                elif b.op == "num" and e.denominator == 1:
                    expand.append((b, e))
                    del out[b]
                elif b.op == "add" and e.denominator == 1 and e > 0:
                    expand.append((b, e))
                    del out[b]
                elif b.op == "num" and e.denominator != 1 and (e > 1 or e < 0):
                    fl = Fraction(e.__floor__())
                    expand.append((b, fl))
                    out[b] = e - fl
    return tuple(sorted(out.items(), key=lambda x: tm.skey(x[0]))), expand


_ATOMPOLY = {}


def pmul(a, b):
    if not a.d or not b.d:
        return PZERO
    if len(a.d) == 1 and () in a.d:
        c = a.d[()]
        return b if c == 1 else Poly({m: v * c for m, v in b.d.items()})
    if len(b.d) == 1 and () in b.d:
        return pmul(b, a)
    out = {}
    extra = None
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, expand = mmul(m1, m2)
            c = c1 * c2
            if expand:
                p = Poly({m: c})
                for base, e in expand:
                    if base.op == "num":
                        p = pmul(p, pconst(tm.val(base) ** int(e)))
                    elif base.op in ("cos", "sin"):
                        p = pmul(p, _trig_pow(base, e))
                    elif base.op == "abs":
                        p = pmul(p, _even_abs(base.args[0], e))
                    else:
                        q = _ATOMPOLY[base]
                        for _ in range(int(e)):
                            p = pmul(p, q)
                extra = p if extra is None else padd(extra, p)
                continue
            s = out.get(m, F0) + c
            if s:
                out[m] = s
            else:
                out.pop(m, None)
    r = Poly(out)
    return padd(r, extra) if extra is not None else r


_TRIG = {}


def _trig_pow(b, e):
    """cos(x)^2 is (1 + cos(2 x)) / 2, sin(x)^2 is (1 - cos(2 x)) / 2."""
    arg = _TRIG.get(b)
    if arg is None:
        return patom(b, e)
    p2 = pmul(pconst(2), arg)
    c = tm.mk("cos", (to_term(p2),), R)
    _TRIG[c] = p2
    sq = padd(pconst(Fraction(1, 2)), patom(c), Fraction(1, 2) if b.op == "cos" else Fraction(-1, 2))
    r = PONE
    for _ in range(int(e) // 2):
        r = pmul(r, sq)
    return pmul(r, patom(b)) if e % 2 else r


def _even_abs(x, e):
    """|x|^e for an even e."""
    if x.op == "add" and x in _ATOMPOLY and e > 0:
        r = PONE
        for _ in range(int(e)):
            r = pmul(r, _ATOMPOLY[x])
        return r
    return patom(x, e)


def patom(t, e=F1):
    return Poly({((t, e),): F1})


def ex_term(e):
    return tm.num(e) if isinstance(e, Fraction) else to_term(e)


def mono_term(m, c=F1):
    fs = []
    for b, e in m:
        if b is E:
            fs.append(tm.exp(ex_term(e)))
        elif isinstance(e, Fraction) and e == 1:
            fs.append(b)
        else:
            fs.append(tm.pow_(b, ex_term(e)))
    if c != 1 or not fs:
        fs.insert(0, tm.mk("num", (c,), R) if not all(x.sort == I for x in fs) or c.denominator != 1
                  else tm.mk("num", (c,), I))
    if len(fs) == 1:
        return fs[0]
    return tm.mul(*fs)


def to_term(p):
    if not p.d:
        return tm.ZERO
    ms = sorted(p.d.items(), key=lambda x: mkey(x[0]))
    ts = [mono_term(m, c) for m, c in ms]
    if len(ts) == 1:
        return ts[0]
    return tm.add(*ts)


def _primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _num_pow(c, ex):
    """c**ex for positive rational c as Poly."""
    p = PONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n == 1:
            continue
        fac = _primes(n) if n < 10 ** 12 else {n: 1}
        for q, k in fac.items():
            e = exmul(Fraction(k * s), ex)
            if isinstance(e, Fraction):
                fl = Fraction(e.__floor__())
                coef = Fraction(q) ** int(fl) if abs(fl) < 400 else None
                fr = e - fl
                if coef is None:
                    p = pmul(p, patom(tm.num(q), e))
                else:
                    p = pmul(p, pconst(coef))
                    if fr:
                        p = pmul(p, patom(tm.num(q), fr))
            else:
                p = pmul(p, patom(tm.num(q), e))
    return p


# ====================================================================== context
class Unknown(Exception):
    pass


class Ctx:
    """Stack of assumptions with prover services."""

    def __init__(self, timeout_ms=3000):
        self.relations = []
        self.asm = []
        self.levels = []
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout = timeout_ms
        self.tr = Z3Tr(self)
        self.memo = [{}]
        self.qcache = {}
        self.noz3 = 0
        self.version = 0
        self.eqs = []         # oriented equations (sym -> term)
        self.deadline = None
        self.simplemap = {}   # user rewrite rules atom->term applied in normal forms
        self.rules = []
        self.select_hints = []   # terms proposed as the only index at which a guarded sum is non-zero
        self.facts_done = [set()]

    # ------------------------------------------------------------- assumption stack
    def push(self):
        self.levels.append((len(self.asm), len(self.eqs), len(self.rules)))
        self.solver.push()
        self.memo.append({})
        self.facts_done.append(set())

    def pop(self):
        n, e, r = self.levels.pop()
        del self.asm[n:]
        del self.eqs[e:]
        del self.rules[r:]
        self.solver.pop()
        self.memo.pop()
        self.facts_done.pop()

    def key(self):
        return tuple(a.id for a in self.asm)

    def assume(self, c):
        if c is tm.TRUE:
            return
        if c.op == "and":
            for x in c.args:
                self.assume(x)
            return
        self.asm.append(c)
        self.memo[-1] = {}
        self._orient(c)
        try:
            z = self.tr.b(c)
            self._flush()
            self.solver.add(z)
        except Unknown:
            pass

    def _flush(self):
        for a in self.tr.take_axioms():
            self.solver.add(a)

    def _orient(self, c):
        if c.op != "eq":
            return
        a, b = c.args
        if a.sort == I and b.sort == I:
            # 0 == poly : solve for a symbol with coefficient +-1 not occurring elsewhere
            p = tm._ipoly(b)
            cands = []
            for m, k in p.items():
                if len(m) == 1 and abs(k) == 1:
                    s = tm._byid[m[0]]
                    if s.op != "sym":
                        continue
                    rest = {m2: -k2 / k for m2, k2 in p.items() if m2 != m}
                    rt = tm._from_ipoly(rest)
                    if s not in tm.fv(rt):
                        cands.append((s, rt))
            if cands:
                # prefer eliminating fresh symbols
                cands.sort(key=lambda x: ("!" not in x[0].args[0], x[0].id))
                s, rt = cands[0]
                rt = self.rw(rt)
                if s not in tm.fv(rt):
                    self.eqs.append((s, rt))
        else:
            for x, y in ((a, b), (b, a)):
                if x.op == "app" and y.op == "num" and not y.sp:
                    self.eqs.append((x, y))
                    return
                if x.op == "sym" and x not in tm.fv(y) and x is not tm.PI:
                    y = self.rw(y)
                    if x not in tm.fv(y):
                        self.eqs.append((x, y))
                        return

    def rw(self, t):
        """Apply oriented equations."""
        for s, r in self.eqs:
            if s.op == "app":
                if tm.fv(s) <= tm.fv(t):
                    t = tm.replace(t, lambda x: r if x is s else None)
            elif s in tm.fv(t):
                t = tm.subst(t, {s: r})
        return t

    # ------------------------------------------------------------- solver queries
    def check(self, *extra, timeout=None):
        if self.noz3:
            return "unknown"
        zs = []
        try:
            for e in extra:
                zs.append(self.tr.b(e))
        except Unknown:
            return "unknown"
        for e in self.lemmas(extra):
            try:
                zs.append(self.tr.b(e))
            except Unknown:
                pass
        self.solver.push()
        try:
            self._flush()
            for z in zs:
                self.solver.add(z)
            if timeout:
                self.solver.set("timeout", timeout)
            t0 = time.time()
            r = self.solver.check()
            STATS.z3_calls += 1
            STATS.z3_time += time.time() - t0
            if timeout:
                self.solver.set("timeout", self.timeout)
            if r == z3.sat:
                try:
                    self.last_model = self.solver.model()
                except z3.Z3Exception:
                    self.last_model = None
            return str(r)
        finally:
            self.solver.pop()

    _inlem = False

    def lemmas(self, extra):
        """Instances of the sum lemmas (monotone prefix sums) and of quantified facts at the hints."""
        if self._inlem:
            return []
        k = (self.key(), "lem", tuple(e.id for e in extra))
        r = self.qcache.get(k)
        if r is not None:
            return r
        self._inlem = True
        out = []
        try:
            groups = {}
            for a in list(self.asm) + list(extra):
                for s in tm.subterms(a):
                    if s.op == "Sum" and s.sort == I and s.args[1] is tm.ZERO and \
                            not any(v.op == "bv" for v in tm.fv(s)):
                        groups.setdefault((s.args[0], s.args[3]), {})[s.args[2]] = s
            for q in self.select_hints:
                for a in list(self.asm) + list(extra):
                    if a.op == "All":
                        lo, hi, v, b = tm.open_(a)
                        out.append(tm.or_(tm.lt(q, lo), tm.le(hi, q), tm.inst(a, q)))
                        for s in tm.subterms(out[-1]):
                            if s.op == "Sum" and s.sort == I and s.args[1] is tm.ZERO and \
                                    not any(v.op == "bv" for v in tm.fv(s)):
                                groups.setdefault((s.args[0], s.args[3]), {})[s.args[2]] = s
            for (h, body), g in groups.items():
                if len(g) > 12:
                    continue
                ok = {}
                for hi, s in g.items():
                    ok[hi] = self.nonneg_below(s, hi)
                    if ok[hi]:
                        out.append(tm.le(tm.ZERO, s))
                    out.append(tm.or_(tm.lt(tm.ZERO, hi), tm.eq(s, tm.ZERO)))
                    lin = linear_body(s)
                    if lin is not None:         # sum of an arithmetic progression
                        a, b = lin
                        out.append(tm.or_(tm.lt(hi, tm.ZERO), tm.eq(tm.mul(tm.num(2), s), tm.add(
                            tm.mul(tm.num(2), a, hi), tm.mul(b, tm.sub(tm.mul(hi, hi), hi))))))
                for h1, s1 in g.items():
                    for h2, s2 in g.items():
                        if h1 is h2 or not ok[h2]:
                            continue
                        d = tm.sub(h2, h1)
                        at = tm.inst(s1, h1)
                        if d is tm.ONE:
                            out.append(tm.or_(tm.lt(h1, tm.ZERO), tm.eq(s2, tm.add(s1, at))))
                        elif d.op == "num" and tm.val(d) < 0:
                            pass
                        else:
                            out.append(tm.or_(tm.lt(h2, h1), tm.lt(h1, tm.ZERO), tm.le(s1, s2)))
                            out.append(tm.or_(tm.le(h2, h1), tm.lt(h1, tm.ZERO), tm.le(tm.add(s1, at), s2)))
        finally:
            self._inlem = False
        self.qcache[k] = out
        return out

    def nonneg_below(self, s, hi):
        """Every term of the integer sum s below hi is provably not negative."""
        k = (self.key(), "nnb", s.id, hi.id)
        r = self.qcache.get(k)
        if r is None:
            self.qcache[k] = False
            u = tm.fresh("u")
            old = self._inlem
            self._inlem = True
            self.push()
            try:
                self.assume(tm.le(tm.ZERO, u))
                self.assume(tm.lt(u, hi))
                r = self.entails(tm.le(tm.ZERO, tm.inst(s, u)))
            finally:
                self.pop()
                self._inlem = old
            self.qcache[k] = r
        return r

    def entails(self, c, timeout=None):
        """True when the assumptions imply c."""
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return self.inconsistent()
        k = (self.key(), c.id)
        r = self.qcache.get(k)
        if r is None:
            r = self._entails(c, timeout)
            self.qcache[k] = r
        return r

    def inconsistent(self):
        k = (self.key(), 0)
        r = self.qcache.get(k)
        if r is None:
            r = self.check() == "unsat"
            self.qcache[k] = r
        return r

    def _entails(self, c, timeout):
        c = self.rw(c)
        if c is tm.TRUE:
            return True
        for a in self.asm:
            if a is c:
                return True
        if c.op in ("le", "lt") and (c.args[0].sort == R or c.args[1].sort == R):
            s = self.psign(self.norm(tm.sub(c.args[1], c.args[0])))
            if s in ("pos", "zero") and c.op == "le" or s == "pos":
                return True
            if s == "nonneg" and c.op == "le":
                return True
        if c.op == "and":
            return all(self.entails(x) for x in c.args)
        if self.check(tm.not_(c), timeout=timeout) == "unsat":
            return True
        if has_extremum(c):
            # extrema over an index range are only comparable in normal form
            c2 = self.canon_b(c)
            extra = [self.canon_b(a) for a in self.asm if has_extremum(a)]
            if c2 is not c or extra:
                self.push()
                try:
                    for a in extra:
                        self.assume(a)
                    return self.check(tm.not_(c2), timeout=timeout) == "unsat"
                finally:
                    self.pop()
        return False

    # ------------------------------------------------------------- normal form
    def norm(self, t):
        memo = self.memo[-1]
        r = memo.get(t.id)
        if r is None:
            STATS.norm_calls += 1
            r = self._norm(self.rw(t))
            memo = self.memo[-1]
            memo[t.id] = r
        return r

    def canon(self, t):
        """Canonical term equal to t under the assumptions."""
        if t.sort == B:
            return self.canon_b(t)
        if t.sort == U:
            return self.rebuild_canon(t)
        return to_term(self.norm(t))

    def rebuild_canon(self, t):
        if not tm.kids(t) or t.op in tm.BINDERS:
            return t
        return tm.rebuild(t, [self.canon(k) for k in tm.kids(t)])

    def canon_b(self, t):
        if t.op in ("and", "or", "not"):
            return tm.rebuild(t, [self.canon_b(k) for k in t.args])
        if t.op in ("le", "lt", "eq"):
            a, b = t.args
            if a.sort == B or a.sort == U:
                return t
            if a.sort == I and b.sort == I:
                return tm.rebuild(t, [self.canon(a), self.canon(b)])
            p = self.norm(tm.sub(b, a))
            # scale to a canonical leading coefficient
            if p.d:
                lead = min(p.d.items(), key=lambda x: mkey(x[0]))[1]
                s = abs(lead)
                if t.op == "eq":
                    s = lead
                p = Poly({m: c / s for m, c in p.d.items()})
            f = {"le": tm.le, "lt": tm.lt, "eq": tm.eq}[t.op]
            return f(tm.num(F0), to_term(p) if p.d else tm.num(F0))
        if t.op in ("All", "Ex"):
            return t
        return t

    def _norm(self, t):
        op = t.op
        if op == "num":
            return pconst(t.args[0])
        if op in ("sym", "bv"):
            return patom(t)
        if op == "add":
            p = PZERO
            for a in t.args:
                p = padd(p, self.norm(a))
            return p
        if op == "mul":
            p = PONE
            for a in t.args:
                p = pmul(p, self.norm(a))
            return p
        if op == "div":
            return pmul(self.norm(t.args[0]), self.ppow(self.norm(t.args[1]), Fraction(-1)))
        if op == "pow":
            ep = self.norm(t.args[1])
            e = ep.const() if ep.is_const() else ep
            return self.ppow(self.norm(t.args[0]), e)
        if op == "exp":
            ep = self.norm(t.args[0])
            # exp(x + log y) -> y exp(x)
            out = PONE
            rest = {}
            for m, c in ep.d.items():
                if len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1:
                    out = pmul(out, self.ppow(self.norm(m[0][0].args[0]), c))
                else:
                    rest[m] = c
            if rest:
                q = Poly(rest)
                out = pmul(out, patom(E, q.const() if q.is_const() else q))
            return out
        if op == "log":
            return self.plog(self.norm(t.args[0]))
        if op == "abs":
            return self.pabs(self.norm(t.args[0]))
        if op == "app":
            r = self.apply_rules(tm.mk("app", (t.args[0],) + tuple(self.canon(a) for a in t.args[1:]), t.sort))
            if isinstance(r, T) and r.op == "app":
                return patom(r)
            return self.norm(r)
        if op == "ite":
            c = t.args[0]
            if self.rules and c.op in ("le", "lt", "eq") and c.args[0].sort == I:
                c = self.canon_b(c)         # positions of blocks resolved first
            v = self.truth(c)
            if v is not None:
                return self.norm(t.args[1] if v else t.args[2])
            cc = self.canon_b(c)
            self.push()
            self.assume(c)
            a = self.canon(t.args[1])
            self.pop()
            self.push()
            self.assume(tm.not_(c))
            b = self.canon(t.args[2])
            self.pop()
            if a is b:
                return self.norm(a)
            r = tm.ite(cc, a, b)
            return patom(r)
        if op in ("floor", "ceil"):
            a = self.canon(t.args[0])
            r = tm.rebuild(t, [a])
            return patom(r) if r.op != "num" else pconst(tm.val(r))
        if op == "fact":
            return patom(tm.fact(self.canon(t.args[0]))) if t.args[0].op != "num" else self._factnum(t)
        if op in ("idiv", "imod"):
            return self.pidiv(op, t.args[0], t.args[1])
        if op in ("cos", "sin"):
            return self.ptrig(op, self.norm(t.args[0]))
        if op == "Sum":
            return self.psum(t)
        if op in ("Max", "Min", "Prod"):
            return self.pminmax(t)
        if op in ("inf", "ninf", "mnan"):
            return patom(t)
        if op in ("isum",):
            return patom(t)
        return patom(tm.rebuild(t, [self.canon(k) for k in tm.kids(t)])) if tm.kids(t) else patom(t)

    def _factnum(self, t):
        r = tm.fact(t.args[0])
        return pconst(tm.val(r)) if r.op == "num" else patom(r)

    def ptrig(self, op, p):
        sign = F1
        if p.d and min(p.d.items(), key=lambda x: mkey(x[0]))[1] < 0:
            p = pmul(pconst(-1), p)
            sign = F1 if op == "cos" else -F1
        half = p.d.get(((tm.PI, F1),), F0) * 2
        if half and half.denominator == 1:          # whole quarter turns
            p = Poly({m: c for m, c in p.d.items() if m != ((tm.PI, F1),)})
            for _ in range(int(half) % 4):
                op, sign = ("sin", -sign) if op == "cos" else ("cos", sign)
            return pmul(pconst(sign), self.ptrig(op, p))
        if not p.d:
            return pconst(sign) if op == "cos" else PZERO
        a = tm.mk(op, (to_term(p),), R)
        _TRIG[a] = p
        return patom(a) if sign == 1 else pmul(pconst(-1), patom(a))

    def apply_rules(self, t):
        for f in self.rules:
            r = f(self, t)
            if r is not None and r is not t:
                return r
        return t

    def truth(self, c):
        """True/False when decided by the context, else None."""
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        if self.entails(c):
            return True
        if self.entails(tm.not_(c)):
            return False
        return None

    # -------- powers
    def ppow(self, p, e):
        if isinstance(e, Fraction):
            if e == 0:
                return PONE
            if e == 1:
                return p
            if e.denominator == 1 and e > 0 and (len(p.d) <= 1 or e <= 4):
                r = PONE
                if len(p.d) <= 1:
                    return self._mono_pow(p, e) if p.d else PZERO
                for _ in range(int(e)):
                    r = pmul(r, p)
                return r
        if not p.d:
            if isinstance(e, Fraction):
                return PZERO if e > 0 else patom(tm.mk("pow", (tm.ZERO, tm.num(e)), R))
            if isinstance(e, Poly) and self.psign(e) == "pos":
                return PZERO
            return patom(tm.mk("pow", (tm.ZERO, ex_term(e)), R))
        if len(p.d) == 1:
            return self._mono_pow(p, e)
        # content and common monomial
        integer = is_int(e)
        lead_m, lead_c = min(p.d.items(), key=lambda x: mkey(x[0]))
        c = lead_c if integer else abs(lead_c)
        q = Poly({m: v / c for m, v in p.d.items()})
        common = None
        for m in q.d:
            dm = {b: x for b, x in m if isinstance(x, Fraction)}
            if common is None:
                common = dm
            else:
                common = {b: min(x, dm[b]) for b, x in common.items() if b in dm and (min(x, dm[b]) > 0 or max(x, dm[b]) < 0)}
        out = self._mono_pow(pconst(c), e)
        if common:
            common = {b: x for b, x in common.items()
                      if (integer and x.denominator == 1) or (b.op != "num" and self.tsign(b) in ("pos", "nonneg"))}
        if common:
            inv = tuple(sorted(((b, -x) for b, x in common.items()), key=lambda x: tm.skey(x[0])))
            q = pmul(q, Poly({inv: F1}))
            g = Poly({tuple(sorted(common.items(), key=lambda x: tm.skey(x[0]))): F1})
            out = pmul(out, self._mono_pow(g, e))
            if len(q.d) == 1 or (len(q.d) > 1 and q.d != p.d):
                return pmul(out, self.ppow(q, e))
        base = to_term(q)
        if base.op == "add":
            _ATOMPOLY[base] = q
        return pmul(out, patom(base, e))

    def _mono_pow(self, p, e):
        (m, c), = p.d.items()
        if is_int(e):
            out = pconst(c ** int(e)) if abs(e) < 1000 else patom(tm.num(c), e)
            mm = {}
            for b, x in m:
                mm[b] = exmul(x, e)
            m2, expand = mmul((), tuple(sorted(mm.items(), key=lambda z: tm.skey(z[0]))))
            # re-expansion of sums with positive power, numeric bases
            r = out
            for b, x in m2:
                r = pmul(r, self._single(b, x))
            return r
        out = PONE
        left = []
        neg = c < 0
        for b, x in m:
            s = "pos" if b is E else self.tsign(b)
            if s in ("pos", "nonneg"):
                out = pmul(out, self._single(b, exmul(x, e)))
            elif is_int(x) and x % 2 == 0:
                out = pmul(out, patom(tm.abs_(b), exmul(x, e)))
            elif s in ("neg", "nonpos") and is_int(x):
                out = pmul(out, self.ppow(self.norm(tm.neg(b)), exmul(x, e)))
                neg = not neg
            elif isinstance(x, Fraction) and x.denominator % 2 == 0:
                out = pmul(out, self._single(b, exmul(x, e)))     # base >= 0 by definedness
            elif isinstance(x, Poly):
                out = pmul(out, self._single(b, exmul(x, e)))     # symbolic power: base >= 0
            else:
                left.append((b, x))
        out = pmul(out, _num_pow(abs(c), e))
        if left or neg:
            if len(left) == 1 and left[0][1] == 1 and not neg:
                out = pmul(out, self._single(left[0][0], e))
            else:
                base = mono_term(tuple(left), Fraction(-1) if neg else F1)
                out = pmul(out, patom(base, e))
        return out

    def _single(self, b, x):
        if isinstance(x, Fraction) and x == 0:
            return PONE
        if b.op == "num" and isinstance(x, Fraction):
            return _num_pow(tm.val(b), x)
        if b.op in ("cos", "sin") and is_int(x) and 2 <= x <= 8:
            return _trig_pow(b, x)
        if b.op == "abs" and is_int(x) and abs(x) > 1:
            odd = F0 if x % 2 == 0 else F1 if x > 0 else -F1
            r = self.ppow(self.norm(b.args[0]), x - odd)
            return pmul(r, patom(b, odd)) if odd else r
        if b.op == "add" and is_int(x) and x > 0 and b in _ATOMPOLY:
            r = PONE
            for _ in range(int(x)):
                r = pmul(r, _ATOMPOLY[b])
            return r
        return patom(b, x)

    def plog(self, p):
        if p.is_const() and p.const() == 1:
            return PZERO
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c > 0:
                out = PZERO
                ok = True
                for b, x in m:
                    if b is E:
                        out = padd(out, x if isinstance(x, Poly) else pconst(x))
                        continue
                    s = self.tsign(b)
                    if s == "pos" or len(m) == 1:
                        xp = x if isinstance(x, Poly) else pconst(x)
                        if is_int(x) and x % 2 == 0 and s not in ("pos", "nonneg"):
                            out = padd(out, pmul(xp, patom(tm.log(tm.abs_(b)))))
                        else:
                            out = padd(out, pmul(xp, patom(tm.log(b))))
                    else:
                        ok = False
                        break
                if ok:
                    for n, s in ((c.numerator, 1), (c.denominator, -1)):
                        if n != 1:
                            for q, k in _primes(n).items():
                                out = padd(out, pmul(pconst(Fraction(k * s)), patom(tm.log(tm.num(q)))))
                    return out
        elif p.d:
            lead_m, lead_c = min(p.d.items(), key=lambda x: mkey(x[0]))
            if abs(lead_c) != 1:
                q = Poly({m: v / abs(lead_c) for m, v in p.d.items()})
                return padd(self.plog(pconst(abs(lead_c))), patom(tm.log(to_term(q))))
        return patom(tm.log(to_term(p)))

    def pabs(self, p):
        s = self.psign(p)
        if s in ("pos", "nonneg", "zero"):
            return p
        if s in ("neg", "nonpos"):
            return pmul(pconst(-1), p)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            out = pconst(abs(c))
            for b, x in m:
                s = "pos" if b is E else self.tsign(b)
                if s in ("pos", "nonneg") or (is_int(x) and x % 2 == 0):
                    out = pmul(out, self._single(b, x))
                elif s in ("neg", "nonpos") and is_int(x):
                    out = pmul(out, self._single(b, x))
                    if x % 2:
                        out = pmul(out, pconst(-1))
                else:
                    out = pmul(out, patom(tm.abs_(b), x))
            return out
        common = None
        for m in p.d:
            d = {b: x for b, x in m if is_int(x)}
            if common is None:
                common = d
            else:
                common = {b: min(x, d[b]) for b, x in common.items() if b in d and (d[b] > 0) == (x > 0)}
        if common:
            out, inv = PONE, PONE
            for b, x in common.items():
                out = pmul(out, self.pabs(self._single(b, x)))
                inv = pmul(inv, self._single(b, -x))
            return pmul(out, self.pabs(pmul(p, inv)))
        lead_m, lead_c = min(p.d.items(), key=lambda x: mkey(x[0]))
        q = Poly({m: v / lead_c for m, v in p.d.items()})
        base = to_term(q)
        if base.op == "add":
            _ATOMPOLY[base] = q
        return pmul(pconst(abs(lead_c)), patom(tm.abs_(base)))

    # -------- integer division
    def pidiv(self, op, a, b):
        b = self.canon(b)
        a = self.canon(a)
        if b.op == "num" and tm.val(b) == 1:
            return self.norm(a) if op == "idiv" else PZERO
        pa = tm._ipoly(a)
        bm = tm._ipoly(b)
        q, r = {}, dict(pa)
        if len(bm) == 1:
            (mb, cb), = bm.items()
            for m, c in list(r.items()):
                rest = list(m)
                ok = True
                for x in mb:
                    if x in rest:
                        rest.remove(x)
                    else:
                        ok = False
                        break
                if ok and (c / cb).denominator == 1:
                    q[tuple(rest)] = q.get(tuple(rest), 0) + c / cb
                    del r[m]
        rt = tm._from_ipoly(r)
        qt = tm._from_ipoly(q)
        if self.entails(tm.and_(tm.le(tm.ZERO, rt), tm.lt(rt, b))):
            return self.norm(qt) if op == "idiv" else self.norm(rt)
        if q:
            inner = tm.mk(op, (rt, b), I)
            if op == "idiv":
                return padd(self.norm(qt), patom(inner))
            return patom(inner)
        return patom(tm.mk(op, (a, b), I))

    # -------- sums
    def psum(self, t):
        lo, hi, v, body = tm.open_(t)
        lo, hi = self.canon(lo), self.canon(hi)
        n = tm.sub(hi, lo)
        if n.op == "num":
            n0 = int(tm.val(n))
            if n0 <= 0:
                return PZERO
            if n0 <= tm.UNROLL:
                p = PZERO
                for i in range(n0):
                    p = padd(p, self.norm(tm.subst(body, {v: tm.add(lo, tm.num(i))})))
                return p
        if self.entails(tm.le(hi, lo)):
            return PZERO
        if tm.val(lo) != 0 if lo.op == "num" else True:
            body = tm.subst(body, {v: tm.add(v, lo)})
            hi = n
            lo = tm.ZERO
        return self._psum0(v, hi, body)

    def _psum0(self, v, n, body):
        """Normal form of Sum over 0 <= v < n of body."""
        # split at conditions that depend on the index
        c = self._index_cond(body, v)
        self.push()
        self.assume(tm.le(tm.ZERO, v))
        self.assume(tm.lt(v, n))
        try:
            if c is not None:
                dec = self.truth(c)
                if dec is not None:
                    return self._leave(lambda: self._psum0(v, n, force(body, c, dec)))
                sp = self._split_point(c, v)
                if sp is not None:
                    kind, e = sp
                    a, b = force(body, c, True), force(body, c, False)
                    return self._leave(lambda: self._split_sum(v, n, kind, e, a, b))
            if c is not None and self.select_hints:
                for q in self.select_hints:
                    if v in tm.fv(q):
                        continue
                    if self._only_at(c, v, q, n):
                        a, b = force(body, c, True), force(body, c, False)
                        return self._leave(lambda: padd(self._psum0(v, n, b), self._at(tm.sub(a, b), v, q, n)))
                    if self._only_at(tm.not_(c), v, q, n):
                        b, a = force(body, c, True), force(body, c, False)
                        return self._leave(lambda: padd(self._psum0(v, n, b), self._at(tm.sub(a, b), v, q, n)))
                g = self._guard(body)
                if g is not None:
                    for q in self.select_hints:
                        if v not in tm.fv(q) and self._only_at(g[0], v, q, n):
                            return self._leave(lambda: self._at(g[1], v, q, n))
            p = self.norm(body)
            pieces = list(p.d.items())
            if any(self._index_cond(b, v) is not None and self._split_point(self._index_cond(b, v), v) is not None
                   for m, _ in pieces for b, _e in m):
                nb = to_term(p)
                if nb is not body:
                    return self._leave(lambda: self._psum0(v, n, nb))
        finally:
            if self._left:
                self._left = False
            else:
                self.pop()
        out = PZERO
        for m, c in pieces:
            out = padd(out, self._sum_mono([(v, n)], m), c)
        return out

    def _guard(self, body):
        """(condition, value) when body is ite(condition, value, 0) possibly times other factors."""
        if body.op == "ite":
            if body.args[2].op == "num" and tm.val(body.args[2]) == 0:
                return body.args[0], body.args[1]
            if body.args[1].op == "num" and tm.val(body.args[1]) == 0:
                return tm.not_(body.args[0]), body.args[2]
        if body.op == "mul":
            for i, a in enumerate(body.args):
                g = self._guard(a)
                if g is not None:
                    rest = body.args[:i] + body.args[i + 1:]
                    return g[0], tm.mul(g[1], *rest)
        return None

    def _only_at(self, c, v, q, n):
        """Under the present range of v: the condition c excludes every v other than q."""
        self.push()
        try:
            self.assume(c)
            self.assume(tm.not_(tm.eq(v, q)))
            return self.inconsistent()
        finally:
            self.pop()

    def _at(self, t, v, q, n):
        inside = tm.and_(tm.le(tm.ZERO, q), tm.lt(q, n))
        at = tm.subst(t, {v: q})
        return self.norm(at) if self.truth(inside) is True else self.norm(tm.ite(inside, at, tm.num(F0)))

    _left = False

    def _leave(self, f):
        self.pop()
        self._left = False
        try:
            return f()
        finally:
            self._left = True

    def _index_cond(self, body, v):
        if body.sort == B:
            return None
        for s in tm.subterms(body):
            if s.op == "ite" and v in tm.fv(s.args[0]):
                for c in atoms_of(s.args[0]):
                    if v in tm.fv(c):
                        return c
        return None

    def _split_point(self, c, v):
        """('lt', e): c iff v < e;  ('ge', e): c iff v >= e;  ('eq', e)."""
        if c.op not in ("le", "eq") or c.args[0].sort != I or c.args[1].sort != I:
            return None
        d = tm.sub(c.args[1], c.args[0])
        p = tm._ipoly(d)
        k = p.get((v.id,))
        if k is None or abs(k) != 1:
            return None
        rest = {m: x for m, x in p.items() if m != (v.id,)}
        rt = tm._from_ipoly(rest)
        if v in tm.fv(rt):
            return None
        if c.op == "eq":
            return "eq", (tm.neg(rt) if k == 1 else rt)
        if k == -1:      # rest - v >= 0
            return "lt", tm.add(rt, tm.ONE)
        return "ge", tm.neg(rt)

    def _split_sum(self, v, n, kind, e, a, b):
        if kind == "eq":
            inside = tm.and_(tm.le(tm.ZERO, e), tm.lt(e, n))
            tr = self.truth(inside)
            at = tm.subst(tm.sub(a, b), {v: e})
            base = self._psum0(v, n, b)
            if tr is True:
                return padd(base, self.norm(at))
            if tr is False:
                return base
            return padd(base, self.norm(tm.ite(inside, at, tm.num(F0))))
        if kind == "ge":
            a, b = b, a
        # now: v < e -> a ; else b
        if self.entails(tm.le(e, tm.ZERO)):
            return self._psum0(v, n, b)
        if self.entails(tm.le(n, e)):
            return self._psum0(v, n, a)
        if not self.entails(tm.and_(tm.le(tm.ZERO, e), tm.le(e, n))):
            z = tm.ite(tm.le(e, tm.ZERO), tm.ZERO, tm.ite(tm.le(n, e), n, e))
            e = z
        first = self.norm(tm.sum_(tm.ZERO, e, lambda k: tm.subst(a, {v: k})))
        second = self.norm(tm.sum_(e, n, lambda k: tm.subst(b, {v: k})))
        return padd(first, second)

    def _sum_mono(self, idx, m):
        """Sum over the index list (innermost last) of the monomial m; canonical nesting."""
        factors = list(m)
        v0, n0 = idx[0]
        out_f = [f for f in factors if not dep(f, v0)]
        in_f = [f for f in factors if dep(f, v0)]
        if not in_f:
            cnt = self.norm(n0) if self.entails(tm.le(tm.ZERO, n0)) else self.norm(tm.max2(n0, tm.ZERO))
            return pmul(cnt, Poly({tuple(out_f): F1}))
        # flatten inner sums with exponent one and ranges independent of v0
        work = in_f
        indices = [(v0, n0)]
        changed = True
        guard = 0
        while changed and guard < 4:
            changed = False
            for f in list(work):
                b, x = f
                if b.op == "Sum" and x == 1 and len(indices) < 4:
                    lo, hi, w, body = tm.open_(b)
                    if lo.op == "num" and tm.val(lo) == 0 and not any(i in tm.fv(hi) for i, _ in indices):
                        self.push()
                        for i, h in indices + [(w, hi)]:
                            self.assume(tm.le(tm.ZERO, i))
                            self.assume(tm.lt(i, h))
                        p = self.norm(body)
                        self.pop()
                        if len(p.d) == 1 and list(p.d.values())[0] == 1:
                            (mm, _), = p.d.items()
                            work.remove(f)
                            comb, expand = mmul(tuple(sorted(work, key=lambda z: tm.skey(z[0]))), mm)
                            if expand:
                                work.append(f)
                                continue
                            work = list(comb)
                            indices.append((w, hi))
                            changed = True
                            guard += 1
                            break
        best = None
        for perm in itertools.permutations(indices):
            p = self._nest(list(perm), work)
            k = (_size(p), p.key())
            if best is None or k < best[0]:
                best = (k, p)
        return pmul(best[1], Poly({tuple(out_f): F1}))

    def _nest(self, order, factors):
        """Eliminate indices in the given order (first eliminated = innermost)."""
        cur = Poly({tuple(sorted(factors, key=lambda z: tm.skey(z[0]))): F1})
        for v, n in order:
            (m, c), = cur.d.items()
            inf = tuple(f for f in m if dep(f, v))
            outf = tuple(f for f in m if not dep(f, v))
            if not inf:
                cnt = self.norm(n)
                if len(cnt.d) != 1:
                    cnt = patom(to_term(cnt))
                cur = pmul(Poly({outf: c}), cnt)
            else:
                s = tm.bind("Sum", tm.ZERO, n, v, mono_term(inf))
                cur = pmul(Poly({outf: c}), patom(s))
            if len(cur.d) != 1:
                return Poly({((to_term(cur), F1),): F1})
        return cur

    def pminmax(self, t):
        lo, hi, v, body = tm.open_(t)
        lo, hi = self.canon(lo), self.canon(hi)
        self.push()
        self.assume(tm.le(lo, v))
        self.assume(tm.lt(v, hi))
        p = self.norm(body)
        self.pop()
        if t.op in ("Max", "Min") and t.sort == R and self.entails(tm.lt(lo, hi)):
            free = Poly({m: c for m, c in p.d.items() if not any(dep(f, v) for f in m)})
            if free.d:
                # Max (f + c) = Max f + c
                rest = Poly({m: c for m, c in p.d.items() if m not in free.d})
                if not rest.d:
                    return free
                return padd(free, self.norm(tm.bind(t.op, lo, hi, v, to_term(rest))))
            common = None
            for m in p.d:
                d = {f for f in m if not dep(f, v)}
                common = d if common is None else common & d
            common = tuple(sorted(common or (), key=lambda f: tm.skey(f[0])))
            lead = min(p.d.items(), key=lambda x: mkey(x[0]))[1] if p.d else F1
            sg = self.msign(common) if common else "pos"
            if p.d and (common or abs(lead) != 1) and sg in ("pos", "neg"):
                # Max (k f) = k Max f for k > 0, k Min f for k < 0
                inv = Poly({tuple((b, padd(PZERO, pmul(pconst(-1), x)) if isinstance(x, Poly) else -x)
                                  for b, x in common): F1 / abs(lead)})
                rest = pmul(p, inv)
                k = pmul(Poly({common: F1}), pconst(abs(lead)))
                op = t.op if sg == "pos" else {"Max": "Min", "Min": "Max"}[t.op]
                if sg == "neg":
                    pass
                return pmul(k, self.norm(tm.bind(op, lo, hi, v, to_term(rest))))
        r = tm.bind(t.op, lo, hi, v, to_term(p))
        return patom(r)

    # ------------------------------------------------------------- signs
    def tsign(self, t):
        """Sign of an atom (or term)."""
        k = ("sgn", t.id)
        memo = self.memo[-1]
        if k in memo:
            return memo[k]
        memo[k] = None            # cut recursion
        s = self._tsign(t)
        self.memo[-1][k] = s
        return s

    def _tsign(self, t):
        op = t.op
        if op == "num":
            v = tm.val(t)
            return "pos" if v > 0 else "neg" if v < 0 else "zero"
        if t is tm.PI or t is E or op in ("exp", "fact"):
            return "pos"
        if op == "abs":
            s = self.psign(self.norm(t.args[0]))
            return "pos" if s in ("pos", "neg") else "nonneg"
        if op in ("add", "mul", "pow", "div"):
            if op == "add" and t in _ATOMPOLY:
                s = self.psign(_ATOMPOLY[t])
            else:
                p = self.norm(t)
                if len(p.d) == 1 and list(p.d)[0] == ((t, F1),):
                    s = None
                else:
                    s = self.psign(p)
            if s:
                return s
        if op == "Sum":
            lo, hi, v, body = tm.open_(t)
            self.push()
            self.assume(tm.le(lo, v))
            self.assume(tm.lt(v, hi))
            s = self.psign(self.norm(body))
            self.pop()
            if s in ("pos", "neg"):
                if self.entails(tm.lt(lo, hi)):
                    return s
                return "nonneg" if s == "pos" else "nonpos"
            if s in ("nonneg", "nonpos", "zero"):
                return s
        if op in ("Max", "Min"):
            lo, hi, v, body = tm.open_(t)
            self.push()
            self.assume(tm.le(lo, v))
            self.assume(tm.lt(v, hi))
            s = self.psign(self.norm(body))
            self.pop()
            if s:
                return s
        if op == "ite":
            c = t.args[0]
            ss = []
            for cond, x in ((c, t.args[1]), (tm.not_(c), t.args[2])):
                self.push()
                self.assume(cond)
                ss.append(self.psign(self.norm(x)))
                self.pop()
            return join_sign(*ss)
        if op in ("inf", "ninf", "mnan"):
            return None
        return self._zsign(t)

    def _zsign(self, t):
        if self.noz3:
            return None
        z = tm.ZERO if t.sort == I else tm.num(F0)
        k = (self.key(), "zs", t.id)
        if k in self.qcache:
            return self.qcache[k]
        r = None
        if self.check(tm.not_(tm.le(z, t))) == "unsat":
            r = "nonneg"
            if self.check(tm.not_(tm.lt(z, t))) == "unsat":
                r = "pos"
            elif self.check(tm.not_(tm.eq(z, t))) == "unsat":
                r = "zero"
        elif self.check(tm.not_(tm.le(t, z))) == "unsat":
            r = "nonpos"
            if self.check(tm.not_(tm.lt(t, z))) == "unsat":
                r = "neg"
        self.qcache[k] = r
        return r

    def msign(self, m, c=F1):
        s = "pos" if c > 0 else "neg"
        for b, x in m:
            if b is E:
                continue
            if is_int(x) and x % 2 == 0:
                bs = self.tsign(b)
                fs = "pos" if bs in ("pos", "neg") else "nonneg" if bs != "zero" else "zero"
                if x < 0:
                    fs = "pos"
            else:
                bs = self.tsign(b)
                if not is_int(x):
                    # fractional or symbolic powers are >= 0 when defined
                    fs = "pos" if bs == "pos" else "nonneg"
                    if isinstance(x, Fraction) and x < 0:
                        fs = "pos"
                else:
                    fs = bs
                    if x < 0 and fs in ("nonneg", "nonpos"):
                        fs = "pos" if fs == "nonneg" else "neg"   # defined hence nonzero
            s = mul_sign(s, fs)
            if s is None:
                return None
        return s

    def psign(self, p):
        if not p.d:
            return "zero"
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if not m:
                return "pos" if c > 0 else "neg"
            return self.msign(m, c)
        k = ("psgn", p)
        memo = self.memo[-1]
        if k in memo:
            return memo[k]
        memo[k] = None
        s = None
        first = True
        for m, c in p.d.items():
            q = self.msign(m, c)
            s = q if first else add_sign(s, q)
            first = False
            if s is None:
                break
        if s is None:
            s = self._square_sign(p)
        if s is None:
            s = self._zsign(to_term(p))
        self.memo[-1][k] = s
        return s

    def _square_sign(self, p):
        """Perfect squares (a +- b)^2 with two atoms, possibly times a signed factor."""
        if len(p.d) != 3:
            return None
        items = list(p.d.items())
        for i in range(3):
            m, c = items[i]
            (m1, c1), (m2, c2) = items[:i] + items[i + 1:]
            if c1 > 0 and c2 > 0:
                # m^2 = m1*m2 and c^2 = 4 c1 c2
                lhs = pmul(Poly({m: F1}), Poly({m: F1}))
                rhs = pmul(Poly({m1: F1}), Poly({m2: F1}))
                if lhs == rhs and c * c <= 4 * c1 * c2 and \
                        self.msign(m1) in ("pos", "nonneg") and self.msign(m2) in ("pos", "nonneg"):
                    return "nonneg"
        return None

    # ------------------------------------------------------------- proving
    def relation(self, lead, rest):
        """Known equation  product of the atoms lead = rest  (used to reduce polynomials)."""
        self.relations.append((tuple(self.canon(x) for x in lead), self.norm(rest)))

    def reduce(self, p):
        for _ in range(40):
            for m, c in p.d.items():
                hit = None
                for lead, rest in self.relations:
                    d = dict(m)
                    for x in lead:
                        e = d.get(x, F0)
                        if not is_int(e) or e < 1:
                            break
                        d[x] = e - 1
                    else:
                        hit = (lead, rest)
                        break
                if hit:
                    q = {k: v for k, v in p.d.items() if k != m}
                    mono = Poly({tuple((b, d[b]) for b, _ in m if d[b] != 0): c})
                    p = padd(Poly(q), pmul(mono, hit[1]))
                    break
            else:
                return p
        return p

    def is_zero(self, t):
        p = self.norm(t)
        if p.d and self.relations:
            p = self.reduce(p)
        if not p.d:
            return True
        return self._clear(p)

    def _clear(self, p, depth=0):
        """Multiply through by denominators that are sums and test again."""
        for _ in range(6):
            den = {}
            for m in p.d:
                for b, x in m:
                    if isinstance(x, Fraction) and x < 0 and b.op == "add" and b in _ATOMPOLY:
                        den[b] = min(den.get(b, F0), x)
            if not den:
                return not p.d
            for b, x in den.items():
                k = Fraction(-((-(-x)).__floor__())) if False else Fraction((-x).__ceil__())
                q = PZERO
                base = _ATOMPOLY[b]
                for m, c in p.d.items():
                    e = dict(m).get(b, F0)
                    rest = tuple((bb, xx) for bb, xx in m if bb is not b)
                    if isinstance(e, Poly):
                        return False
                    ne = e + k
                    term = Poly({rest: c})
                    if ne.denominator == 1 and ne >= 0:
                        for _i in range(int(ne)):
                            term = pmul(term, base)
                    else:
                        term = pmul(term, patom(b, ne))
                    q = padd(q, term)
                p = q
                if not p.d:
                    return True
        return not p.d

    def prove_eq(self, a, b, depth=0):
        a, b = self.rw(a), self.rw(b)
        if a is b:
            return True
        if a.sort == B:
            return self.prove(tm.eq(a, b))
        if a.sort == U or b.sort == U:
            if self.canon(a) is self.canon(b):
                return True
            return self.entails(tm.eq(a, b))
        if a.sp or b.sp:
            return self._prove_special(a, b)
        d = tm.sub(a, b)
        if self.is_zero(d):
            return True
        d2 = self._unify(d)
        if d2 is not None:
            if self.is_zero(d2):
                return True
            a, b, d = d2, tm.num(0.0) if d2.sort == R else tm.ZERO, d2
        if depth < 12:
            c = self.pick_split(d)
            if c is not None:
                for cond in (c, tm.not_(c)):
                    self.push()
                    try:
                        self.assume(cond)
                        if self.inconsistent():
                            continue
                        if not self.prove_eq(force(a, c, cond is c), force(b, c, cond is c), depth + 1):
                            return False
                    finally:
                        self.pop()
                return True
            if self._ext(d, depth):
                return True
        if self.entails(tm.eq(a, b), timeout=self.timeout * 2):
            return True
        if self.rules and not a.sp and not b.sp:
            d = self.canon(d)
            return self.entails(tm.eq(d, tm.num(0.0) if d.sort == R else tm.ZERO), timeout=self.timeout * 2)
        return False

    def _unify(self, d):
        """d with the conditional subterms of its sums replaced by one representative per provably equal class."""
        if self._inuni:
            return None
        d = to_term(self.norm(d))
        groups = {}
        for s in tm.subterms(d):
            if s.op == "Sum" and s.sort == R and has_ite(s.args[3]) and not any(x.op == "bv" for x in tm.fv(s)):
                groups.setdefault((s.args[1], s.args[2]), []).append(s)
        repl = {}
        self._inuni = True
        try:
            for (lo, hi), ss in groups.items():
                v = tm.fresh("x", I)
                bodies = [tm.inst(s, v) for s in ss]
                ites = []
                for b in bodies:
                    for x in top_ites(b):
                        if x not in ites:
                            ites.append(x)
                if len(ites) < 2 or len(ites) > 6:
                    continue
                m, reps = {}, []
                self.push()
                try:
                    self.assume(tm.le(lo, v))
                    self.assume(tm.lt(v, hi))
                    for x in ites:
                        for r in reps:
                            if r.sort == x.sort and r.sp == x.sp and self.prove_eq(x, r, 9):
                                m[x] = r
                                break
                        else:
                            reps.append(x)
                finally:
                    self.pop()
                if m:
                    for s, b in zip(ss, bodies):
                        nb = replace(b, m)
                        if nb is not b:
                            repl[s] = tm.bind("Sum", lo, hi, v, nb)
        finally:
            self._inuni = False
        return replace(d, repl) if repl else None

    _inuni = False

    def _ext(self, d, depth):
        """Extensionality: a combination of sums over one range vanishes when its body does; f(x) = f(y) when x = y."""
        p = self.norm(d)
        if not p.d or getattr(self, "_extd", 0) > 2:
            return False
        self._extd = getattr(self, "_extd", 0) + 1
        try:
            ranges = []
            for m in p.d:
                for b, x in m:
                    if b.op == "Sum" and x == 1 and has_ite(b):
                        lo, hi = b.args[1], b.args[2]
                        if (lo, hi) not in ranges:
                            ranges.append((lo, hi))
            for lo, hi in ranges[:2]:
                v = tm.fresh("x", I)
                body, ok = [], True
                for m, c in p.d.items():
                    for k, (b, x) in enumerate(m):
                        if b.op == "Sum" and x == 1 and b.args[1] is lo and b.args[2] is hi:
                            rest = to_term(Poly({m[:k] + m[k + 1:]: c}))
                            body.append(tm.mul(rest, tm.inst(b, v)))
                            break
                    else:
                        ok = False
                        break
                if not ok:
                    continue
                self.push()
                try:
                    self.assume(tm.le(lo, v))
                    self.assume(tm.lt(v, hi))
                    if self.prove_eq(tm.add(*body), tm.num(0.0), depth + 1):
                        return True
                finally:
                    self.pop()
            if len(p.d) == 2:
                (m1, c1), (m2, c2) = p.d.items()
                if c1 == -c2:
                    r1 = [f for f in m1 if f not in m2]
                    r2 = [f for f in m2 if f not in m1]
                    if len(r1) == 1 and len(r2) == 1 and r1[0][1] == r2[0][1]:
                        x, y = r1[0][0], r2[0][0]
                        if x.op == y.op and x.op in ("Max", "Min", "Prod"):
                            if x.args[1] is y.args[1] and x.args[2] is y.args[2]:
                                v = tm.fresh("x", I)
                                self.push()
                                try:
                                    self.assume(tm.le(x.args[1], v))
                                    self.assume(tm.lt(v, x.args[2]))
                                    return self.prove_eq(tm.inst(x, v), tm.inst(y, v), depth + 1)
                                finally:
                                    self.pop()
                        elif x.op == y.op and x.op in ("abs", "log", "ceil", "floor", "cos", "sin") and \
                                (has_ite(x) or has_ite(y)):
                            return self.prove_eq(x.args[0], y.args[0], depth + 1)
            return False
        finally:
            self._extd -= 1

    def _prove_special(self, a, b):
        """Equality of extended values: same NaN-ness, same infinities, same reals."""
        c = None
        for t in (a, b):
            for s in tm.subterms(t):
                if s.op == "ite" and s.sp:
                    c = s.args[0]
                    break
            if c is not None:
                break
        if c is not None:
            for at in atoms_of(c):
                c = at
                break
            for cond, tv in ((c, True), (tm.not_(c), False)):
                self.push()
                try:
                    self.assume(cond)
                    if self.inconsistent():
                        continue
                    if not self.prove_eq(force(a, c, tv), force(b, c, tv)):
                        return False
                finally:
                    self.pop()
            return True
        fa, va = tm.split_nan(a)
        fb, vb = tm.split_nan(b)
        if not self.prove(tm.eq(fa, fb)):
            return False
        self.push()
        try:
            self.assume(tm.not_(fa))
            if self.inconsistent():
                return True
            if va.sp or vb.sp:
                return va is vb
            return self.prove_eq(va, vb)
        finally:
            self.pop()

    def pick_split(self, t):
        """An undecided condition of an ite outside binders."""
        p = self.norm(t)
        best = None
        for m in p.d:
            for b, x in m:
                for s in tm.subterms(b):
                    if s.op == "ite":
                        for c in atoms_of(s.args[0]):
                            if any(v.op == "bv" for v in tm.fv(c)):
                                continue
                            if self.truth(c) is None:
                                k = len(tm.show(c))
                                if best is None or k < best[0]:
                                    best = (k, c)
                if isinstance(x, Poly):
                    pass
        return best[1] if best else None

    def prove(self, g, depth=0):
        """True when the goal is proved."""
        g = self.rw(g)
        if g is tm.TRUE:
            return True
        if g.op == "and":
            return all(self.prove(x, depth) for x in g.args)
        if g.op == "All":
            lo, hi, v, body = tm.open_(g)
            self.push()
            try:
                self.assume(tm.le(lo, v))
                self.assume(tm.lt(v, hi))
                if self.inconsistent():
                    return True
                return self.prove(body, depth)
            finally:
                self.pop()
        if g.op == "or":
            # assume the negation of all but the hardest disjunct
            parts = list(g.args)
            parts.sort(key=lambda x: (x.op in ("All", "eq"), x.sort))
            for i, x in enumerate(parts):
                if self.entails(x, timeout=1000):
                    return True
            goal = parts[-1]
            self.push()
            try:
                for x in parts[:-1]:
                    self.assume(tm.not_(x))
                if self.inconsistent():
                    return True
                return self.prove(goal, depth)
            finally:
                self.pop()
        if g.op == "eq":
            a, b = g.args
            if a.sort in (R, I) and b.sort in (R, I):
                return self.prove_eq(a, b)
        if g.op == "not" and g.args[0].op == "eq":
            a, b = g.args[0].args
            if a.sort == R or b.sort == R:
                if self.psign(self.norm(tm.sub(a, b))) in ("pos", "neg"):
                    return True
        if g.op in ("le", "lt") and (g.args[0].sort == R or g.args[1].sort == R):
            return self.prove_le(g.args[0], g.args[1], g.op == "lt", depth)
        if self.entails(g, timeout=self.timeout * 2):
            return True
        if depth < 6:
            for s in tm.subterms(g):
                if s.op == "ite":
                    c = atoms_of(s.args[0])[0]
                    if any(v.op == "bv" for v in tm.fv(c)):
                        continue
                    ok = True
                    for cond, tv in ((c, True), (tm.not_(c), False)):
                        self.push()
                        try:
                            self.assume(cond)
                            if not self.inconsistent() and not self.prove(force(g, c, tv), depth + 1):
                                ok = False
                        finally:
                            self.pop()
                        if not ok:
                            break
                    return ok
        return False

    def rawsign(self, t, depth=0):
        """Sign from the shape of the term before expansion (squares, sums of signed terms)."""
        op = t.op
        if depth > 8:
            return None
        if op == "mul":
            fs = {}
            for a in t.args:
                fs[a] = fs.get(a, 0) + 1
            s = "pos"
            for a, k in fs.items():
                q = self.rawsign(a, depth + 1)
                if k % 2 == 0:
                    q = "pos" if q in ("pos", "neg") else "zero" if q == "zero" else "nonneg"
                s = mul_sign(s, q)
                if s is None:
                    return None
            return s
        if op == "add":
            s = self._one_minus_exp(t, depth)
            if s is not None:
                return s
            s = "zero"
            for a in t.args:
                s = add_sign(s, self.rawsign(a, depth + 1))
                if s is None:
                    break
            if s is not None:
                return s
        if op == "div":
            a, b = self.rawsign(t.args[0], depth + 1), self.rawsign(t.args[1], depth + 1)
            b = {"nonneg": "pos", "nonpos": "neg"}.get(b, b)     # defined, hence non-zero
            return mul_sign(a, b) if a and b else None
        if op == "pow" and t.args[1].op == "num":
            e = tm.val(t.args[1])
            if e.denominator == 1 and e > 0 and e % 2 == 0:
                q = self.rawsign(t.args[0], depth + 1)
                return "pos" if q in ("pos", "neg") else "nonneg"
        if op == "Sum" and t.sort == R:
            lo, hi, v, body = tm.open_(t)
            self.push()
            try:
                self.assume(tm.le(lo, v))
                self.assume(tm.lt(v, hi))
                s = self.rawsign(body, depth + 1)
            finally:
                self.pop()
            if s in ("pos", "neg"):
                if self.entails(tm.lt(lo, hi)):
                    return s
                return "nonneg" if s == "pos" else "nonpos"
            if s:
                return s
        return self.psign(self.norm(t))

    def _one_minus_exp(self, t, depth):
        """Sign of 1 - exp(u) and exp(u) - 1 from the sign of u."""
        if len(t.args) != 2:
            return None
        k, x = (t.args if t.args[0].op == "num" else t.args[::-1])
        if k.op != "num" or tm.val(k) not in (1, -1):
            return None
        if tm.val(k) == 1 and x.op == "mul" and len(x.args) == 2 and x.args[0].op == "num" and tm.val(x.args[0]) == -1:
            flip, x = True, x.args[1]
        elif tm.val(k) == -1:
            flip = False
        else:
            return None
        if x.op != "exp":
            return None
        s = self.rawsign(x.args[0], depth + 1)
        if s and flip:
            s = {"pos": "neg", "neg": "pos", "nonneg": "nonpos", "nonpos": "nonneg"}.get(s, s)
        return s

    def prove_le(self, a, b, strict, depth=0):
        d = tm.sub(b, a)
        if b.op == "num" and tm.val(b) == 0:
            s = self.rawsign(a)
            if s == "neg" or (not strict and s in ("nonpos", "zero")):
                return True
        s = self.rawsign(b if a.op == "num" and tm.val(a) == 0 else d)
        if s == "pos" or (not strict and s in ("nonneg", "zero")):
            return True
        p = self.norm(d)
        s = self.psign(p)
        if s == "pos" or (not strict and s in ("nonneg", "zero")):
            return True
        if depth < 10:
            c = self.pick_split(d)
            if c is not None:
                for cond, tv in ((c, True), (tm.not_(c), False)):
                    self.push()
                    try:
                        self.assume(cond)
                        if not self.inconsistent() and not self.prove_le(
                                force(a, c, tv), force(b, c, tv), strict, depth + 1):
                            return False
                    finally:
                        self.pop()
                return True
        # clear positive sum denominators
        q = p
        for b_ in {bb for m in p.d for bb, x in m
                   if bb.op == "add" and isinstance(x, Fraction) and x < 0 and bb in _ATOMPOLY}:
            if self.tsign(b_) == "pos":
                k = max(-dict(m).get(b_, F0) for m in q.d)
                r = PZERO
                for m, c in q.d.items():
                    e = dict(m).get(b_, F0) + k
                    rest = tuple((x, y) for x, y in m if x is not b_)
                    t_ = Poly({rest: c})
                    if e.denominator == 1 and e >= 0:
                        for _ in range(int(e)):
                            t_ = pmul(t_, _ATOMPOLY[b_])
                    else:
                        t_ = pmul(t_, patom(b_, e))
                    r = padd(r, t_)
                q = r
        s = self.psign(q)
        if s == "pos" or (not strict and s in ("nonneg", "zero")):
            return True
        z = tm.num(F0)
        g = (tm.lt if strict else tm.le)(z, to_term(q))
        return self.entails(g, timeout=self.timeout * 2)

    # ------------------------------------------------------------- definedness
    def defined(self, t, seen=None):
        """Conditions (as (guards, goal)) that make every operation in t defined."""
        out = []
        seen = set() if seen is None else seen

        def go(t, guards):
            k = (t.id, tuple(g.id for g in guards))
            if k in seen:
                return
            seen.add(k)
            op = t.op
            if op == "ite":
                go(t.args[0], guards)
                go(t.args[1], guards + (t.args[0],))
                go(t.args[2], guards + (tm.not_(t.args[0]),))
                return
            if op in tm.BINDERS:
                lo, hi, v, b = tm.open_(t)
                go(lo, guards)
                go(hi, guards)
                go(b, guards + (tm.le(lo, v), tm.lt(v, hi)))
                if op in ("Max", "Min"):
                    out.append((guards, tm.lt(lo, hi)))
                return
            if op == "and" or op == "or":
                for a in t.args:
                    go(a, guards)
                return
            for a in tm.kids(t):
                go(a, guards)
            if op == "div":
                out.append((guards, tm.ne(t.args[1], tm.num(F0) if t.args[1].sort == R else tm.ZERO)))
            elif op == "log":
                out.append((guards, tm.lt(tm.num(F0), t.args[0])))
            elif op == "pow":
                b, e = t.args
                z = tm.num(F0)
                if e.op == "num":
                    x = tm.val(e)
                    if x.denominator == 1:
                        if x < 0:
                            out.append((guards, tm.ne(b, z)))
                    else:
                        out.append((guards, tm.le(z, b) if x > 0 else tm.lt(z, b)))
                elif e.sort == I:
                    out.append((guards, tm.or_(tm.le(tm.ZERO, e), tm.ne(b, z))))
                else:
                    out.append((guards, tm.or_(tm.lt(z, b), tm.and_(tm.le(z, b), tm.le(z, e)))))
            elif op in ("idiv", "imod"):
                out.append((guards, tm.ne(t.args[1], tm.ZERO)))
            elif op == "fact":
                out.append((guards, tm.le(tm.ZERO, t.args[0])))
            elif op == "mnan":
                out.append((guards, tm.not_(t.args[0])))
        go(t, ())
        return out


def dep(f, v):
    b, x = f
    if v in tm.fv(b):
        return True
    if isinstance(x, Poly):
        return any(dep(g, v) for m in x.d for g in m)
    return False


def _size(p):
    n = 0
    for m in p.d:
        for b, x in m:
            n += 1 + tm.height(b) + _tsize(b)
    return n


_ts = {}


def _tsize(t):
    r = _ts.get(t.id)
    if r is None:
        r = 1 + sum(_tsize(k) for k in tm.kids(t))
        _ts[t.id] = r
    return r


def atoms_of(c):
    """Atomic conditions of a boolean term."""
    if c.op in ("and", "or", "not"):
        out = []
        for a in c.args:
            out.extend(atoms_of(a))
        return out
    return [c]


def force(t, c, truth):
    """t with condition c (and its negation) replaced by its truth value, outside binders."""
    nc = tm.not_(c)
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t is c:
            r = tm.TRUE if truth else tm.FALSE
        elif t is nc:
            r = tm.FALSE if truth else tm.TRUE
        elif t.op in tm.BINDERS:
            if tm.fv(c) <= tm.fv(t) and any(True for _ in (1,)):
                lo, hi, v, b = tm.open_(t)
                b2 = force(b, c, truth)
                r = t if b2 is b else tm.bind(t.op, go(lo), go(hi), v, b2)
            else:
                r = t
        elif tm.kids(t):
            ks = tm.kids(t)
            nk = [go(k) for k in ks]
            r = t if all(x is y for x, y in zip(ks, nk)) else tm.rebuild(t, nk)
        else:
            r = t
        memo[t.id] = r
        return r
    return go(t)


_SGN = {"pos": (0, 0, 1), "nonneg": (0, 1, 1), "zero": (0, 1, 0), "nonpos": (1, 1, 0), "neg": (1, 0, 0)}


def _from_bits(n, z, p):
    if n and p:
        return None
    if n:
        return "nonpos" if z else "neg"
    if p:
        return "nonneg" if z else "pos"
    return "zero"


def mul_sign(a, b):
    if a is None or b is None:
        return "zero" if "zero" in (a, b) else None
    na, za, pa = _SGN[a]
    nb, zb, pb = _SGN[b]
    return _from_bits((na and pb) or (pa and nb), za or zb, (pa and pb) or (na and nb))


def add_sign(a, b):
    if a is None or b is None:
        return None
    if a == "zero":
        return b
    if b == "zero":
        return a
    if a in ("pos", "nonneg") and b in ("pos", "nonneg"):
        return "pos" if "pos" in (a, b) else "nonneg"
    if a in ("neg", "nonpos") and b in ("neg", "nonpos"):
        return "neg" if "neg" in (a, b) else "nonpos"
    return None


def join_sign(a, b):
    if a is None or b is None:
        return None
    x, y = _SGN[a], _SGN[b]
    return _from_bits(x[0] or y[0], x[1] or y[1], x[2] or y[2])


# ====================================================================== z3 translation
class Z3Tr:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cache = {}
        self.ax = []
        self.usort = z3.DeclareSort("Uval")
        self.fns = {}
        self.done_ax = set()

    def take_axioms(self):
        a, self.ax = self.ax, []
        return a

    def sort(self, s):
        return {R: z3.RealSort(), I: z3.IntSort(), B: z3.BoolSort(), U: self.usort}[s]

    def b(self, t):
        z = self.go(t)
        return z

    def real(self, t):
        z = self.go(t)
        if z.sort() == z3.IntSort():
            return z3.ToReal(z)
        return z

    def fn(self, name, sorts, out):
        k = (name, tuple(str(s) for s in sorts), str(out))
        f = self.fns.get(k)
        if f is None:
            f = z3.Function("%s/%d/%d" % (name, len(sorts), len(self.fns)), *(list(sorts) + [out]))
            self.fns[k] = f
        return f

    def opaque(self, t, name=None):
        """Uninterpreted value, a function of its bound-variable markers and free integer symbols."""
        bvs = sorted((v for v in tm.fv(t) if v.op == "bv" or (v.op == "sym" and "!" in v.args[0])),
                     key=lambda v: v.id)
        gen = t
        if bvs:
            gen = tm.subst(t, {v: tm.mk("sym", ("?%d%s" % (i, v.sort),), v.sort) for i, v in enumerate(bvs)})
        args = [self.go(v) for v in bvs]
        f = self.fn("op%d" % gen.id, [a.sort() for a in args], self.sort(t.sort))
        z = f(*args) if args else f()
        return z, (not any(v.op == "bv" for v in bvs))

    def go(self, t):
        z = self.cache.get(t.id)
        if z is None:
            z = self._go(t)
            self.cache[t.id] = z
        return z

    def axiom(self, t, *zs):
        """Ground facts about an opaque subterm (only when it has no bound variable)."""
        self.ax.extend(zs)
        self.cache_ax = True

    def _go(self, t):
        op = t.op
        if op == "num":
            v = tm.val(t)
            return z3.IntVal(int(v)) if t.sort == I and v.denominator == 1 else z3.RealVal(str(v))
        if op == "sym":
            z = z3.Const(t.args[0], self.sort(t.sort))
            if t is tm.PI:
                self.ctx.solver  # fixed bounds for pi
                return z3.RealVal("3.14159265358979") if False else z
            return z
        if op == "bv":
            return z3.Const("$%d" % t.args[0], z3.IntSort())
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(self.go(t.args[0]))
        if op == "and":
            return z3.And(*[self.go(a) for a in t.args])
        if op == "or":
            return z3.Or(*[self.go(a) for a in t.args])
        if op in ("le", "lt", "eq"):
            a, b = t.args
            if a.sp or b.sp:
                raise Unknown
            if a.sort == B or a.sort == U or b.sort == U:
                return self.go(a) == self.go(b)
            if a.sort == I and b.sort == I:
                x, y = self.go(a), self.go(b)
            else:
                x, y = self.real(a), self.real(b)
            return x <= y if op == "le" else x < y if op == "lt" else x == y
        if op == "add":
            xs = [self.go(a) if t.sort == I else self.real(a) for a in t.args]
            r = xs[0]
            for x in xs[1:]:
                r = r + x
            return r
        if op == "mul":
            xs = [self.go(a) if t.sort == I else self.real(a) for a in t.args]
            r = xs[0]
            for x in xs[1:]:
                r = r * x
            return r
        if op == "div":
            return self.real(t.args[0]) / self.real(t.args[1])
        if op == "ite":
            if t.sp:
                raise Unknown
            a, b = t.args[1:]
            if t.sort == R:
                return z3.If(self.go(t.args[0]), self.real(a), self.real(b))
            return z3.If(self.go(t.args[0]), self.go(a), self.go(b))
        if op == "abs":
            x = self.go(t.args[0])
            return z3.If(x >= 0, x, -x)
        if op == "app":
            args = [self.go(a) for a in t.args[1:]]
            f = self.fn("f_" + t.args[0], [a.sort() for a in args], self.sort(t.sort))
            return f(*args) if args else f()
        if op in ("All", "Ex"):
            h, lo, hi, b = t.args
            v = z3.Const("$%d" % h, z3.IntSort())
            rng = z3.And(self.go(lo) <= v, v < self.go(hi))
            body = self.go(b)
            return z3.ForAll([v], z3.Implies(rng, body)) if op == "All" else z3.Exists([v], z3.And(rng, body))
        if op == "idiv":
            return self.go(t.args[0]) / self.go(t.args[1])
        if op == "imod":
            return self.go(t.args[0]) % self.go(t.args[1])
        if op == "floor":
            return z3.ToInt(self.real(t.args[0]))
        if op == "ceil":
            return -z3.ToInt(-self.real(t.args[0]))
        if op == "pow":
            b, e = t.args
            if e.op == "num":
                x = tm.val(e)
                if x.denominator == 1 and 0 < x <= 6:
                    z = self.real(b)
                    r = z
                    for _ in range(int(x) - 1):
                        r = r * z
                    return r
                if x.denominator == 1 and -4 <= x < 0:
                    z = self.real(b)
                    r = z
                    for _ in range(int(-x) - 1):
                        r = r * z
                    return 1 / r
            z, ground = self.opaque(t)
            if ground and e.op == "num" and tm.val(e) == Fraction(1, 2):
                zb = self.real(b)
                self.ax.append(z3.Implies(zb >= 0, z3.And(z >= 0, z * z == zb)))
            return z
        if op in ("exp", "fact"):
            z, ground = self.opaque(t)
            if ground:
                self.ax.append(z > 0)
            else:
                self._quant_axiom(t, z, lambda zz: zz > 0)
            return z
        if op in ("Sum", "Prod"):
            h, lo, hi, body = t.args
            if lo is tm.ZERO:
                # a function of the upper limit
                mark = tm.mk("sym", ("?hi",), I)
                bvs = sorted((v for v in tm.fv(t) if v.op == "bv" or (v.op == "sym" and "!" in v.args[0])),
                             key=lambda v: v.id)
                inner = [v for v in bvs if v in tm.fv(body)]
                gen = tm.mk(op, (h, lo, mark, body), t.sort)
                gen = tm.subst(gen, {v: tm.mk("sym", ("?%d%s" % (i, v.sort),), v.sort)
                                     for i, v in enumerate(inner)})
                args = [self.go(hi)] + [self.go(v) for v in inner]
                f = self.fn("op%d" % gen.id, [a.sort() for a in args], self.sort(t.sort))
                return f(*args)
            z, ground = self.opaque(t)
            return z
        if op in ("log", "cos", "sin", "Max", "Min", "Prod", "mnan", "inf", "ninf"):
            if op in ("mnan", "inf", "ninf"):
                raise Unknown
            z, ground = self.opaque(t)
            return z
        z, _ = self.opaque(t)
        return z

    def _quant_axiom(self, t, z, f):
        vs = [z3.Const("$%d" % v.args[0], z3.IntSort()) for v in tm.fv(t) if v.op == "bv"]
        self.ax.append(z3.ForAll(vs, f(z)))
