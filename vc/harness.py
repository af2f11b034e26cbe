"""Proof harness: contracts are groups of obligations over the real functions."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import terms as tm
from . import prover
from .prover import Ctx
from .interp import Interp, Infeasible, Path
from .terms import R, I, B, U
from .values import *

Z = tm.ZERO
ONE = tm.ONE


class ObligationFailed(Exception):
    pass


class Timeout(Exception):
    pass


class H:
    """One verification context."""

    def __init__(self, sizes=None):
        self.sizes = sizes            # None: symbolic; dict: bounded instance
        self.ctx = Ctx()
        self.it = Interp(self.ctx)
        self.obl = self.it.obl        # (name, status, backend, seconds, detail)
        self.paths = 0
        self.notes = []
        self.ints = ()                # names of the arrays that are integer arrays in this group

    # ---------------------------------------------------------- symbolic inputs
    def size(self, name, lo=1, hi=None):
        """Symbolic size (or its value in a bounded instance)."""
        if self.sizes is not None:
            v = self.sizes.get(name)
            if v is None:
                v = max(lo, 2)
            return tm.num(v)
        s = tm.sym(name, I)
        self.ctx.assume(tm.le(tm.num(lo), s))
        if hi is not None:
            self.ctx.assume(tm.le(s, tm.num(hi)))
        return s

    def pick(self, name, default):
        return default if self.sizes is None else self.sizes.get(name, default)

    def arr(self, name, shape, dtype="f", frozen=True):
        if name in self.ints:
            dtype = "i"
        sort = {"f": R, "i": I, "b": B}[dtype]
        a = Arr(Buf(lambda ix: tm.app(name, *ix, sort=sort), shape, dtype, name))
        a.buf.frozen = frozen
        return a

    def inplace(self, first, *arrs, pos=()):
        """Run first() with other contents of the given arrays, which then change in place to their present contents."""
        old = [a.buf.fn for a in arrs]
        for n, a in enumerate(arrs):
            nm = "%s~%d" % (a.buf.name, n)
            srt = old[n](tuple(tm.ZERO for _ in a.buf.shape)).sort
            a.buf.fn = lambda ix, nm=nm, srt=srt: tm.app(nm, *ix, sort=srt)
            if a in pos:
                self.forall(a.shape[0], lambda k: tm.lt(tm.num(0.0), a.get((k,))))
        try:
            first()
        finally:
            for a, f in zip(arrs, old):
                a.buf.fn = f

    def real(self, name, pos=False, nonneg=False):
        s = tm.sym(name)
        if pos:
            self.ctx.assume(tm.lt(tm.num(0.0), s))
        if nonneg:
            self.ctx.assume(tm.le(tm.num(0.0), s))
        return s

    def index(self, name, n):
        if self.sizes is not None and name in self.sizes:
            return tm.num(self.sizes[name])
        s = tm.sym(name, I)
        self.ctx.assume(tm.le(Z, s))
        self.ctx.assume(tm.lt(s, n))
        return s

    def assume(self, c):
        self.ctx.assume(c)

    def forall(self, n, f):
        self.ctx.assume(tm.all_(Z, n, f))

    # ---------------------------------------------------------- running code
    def get(self, dotted):
        return self.it.get(dotted)

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.it.get(f)
        return self.it.call(f, [self.val(a) for a in args], {k: self.val(v) for k, v in kw.items()})

    def meth(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name), [self.val(a) for a in args],
                            {k: self.val(v) for k, v in kw.items()})

    def len(self, o):
        from .npmodel import BUILT
        return self.it.call(BUILT["len"], [o], {})

    def attr(self, o, name):
        return self.it.getattr(o, name)

    @staticmethod
    def val(v):
        if isinstance(v, tm.T):
            return mknum(v)
        if isinstance(v, float):
            return Num(tm.num(v))
        if isinstance(v, list):
            return PList([H.val(x) for x in v])
        return v

    def run(self, name, fn, post, raises=None, frame=True):
        """All paths of fn(): post(value) inside every path that returns.

        raises: None - no path may raise; a callable(outcome) decides raising paths otherwise."""
        n_ok = [0, 0]

        def onpath(o):
            self.paths += 1
            if o.kind == "raise":
                n_ok[1] += 1
                if raises is None:
                    self.fail(name + ": no exception on valid input",
                              "raises %s(%s) at %s when %s" % (o.value.name, o.value.msg, self.it.where,
                                                              " and ".join(tm.show(c)[:200] for c in o.conds)))
                else:
                    raises(o)
                return
            if raises == "must":
                self.fail(name + ": must be refused", "no exception")
                return
            n_ok[0] += 1
            if frame:
                bad = self.changed(o.violations) if o.violations else []
                if bad:
                    self.fail(name + ": frame", "; ".join("%s (%s)" % v[:2] for v in bad[:5]))
                else:
                    self.ok(name + ": frame", "interpreter write set")
            if post is not None:
                post(o.value)
        self.it.explore(fn, onpath)
        if not n_ok[0] and raises is None:
            self.fail(name + ": reachable", "no path reaches the postcondition")
        return n_ok

    def changed(self, violations):
        """Frame violations that can be observed: writes of the value that was there are not."""
        out, first = [], {}
        for v in violations:
            if len(v) == 2:
                out.append(v)
            else:
                first.setdefault(id(v[2]), v)
        for v in first.values():
            buf, old = v[2], v[3]
            ix = tuple(tm.fresh("i", I) for _ in buf.shape)
            self.ctx.push()
            try:
                for k, n in zip(ix, buf.shape):
                    self.ctx.assume(tm.and_(tm.le(Z, k), tm.lt(k, n)))
                a, b = buf.fn(ix), old(ix)
                if a is not b and not self.ctx.inconsistent() and not (
                        self.ctx.prove(tm.eq(a, b)) if a.sort == B else self.ctx.prove_eq(a, b)):
                    out.append(v)
            finally:
                self.ctx.pop()
        return out

    def refused(self, name, fn, exc=None):
        """Every path of fn() must raise."""
        cnt = [0]

        def onpath(o):
            self.paths += 1
            cnt[0] += 1
            if o.kind == "raise":
                if exc is None or self.it.exc_matches(o.value.name, exc):
                    self.ok(name, "path enumeration")
                else:
                    self.fail(name, "raises %s instead of refusing with %s" % (o.value.name, exc))
            else:
                self.fail(name, "accepted: returns %r when %s" % (
                    o.value, " and ".join(tm.show(c)[:200] for c in o.conds)))
        self.it.explore(fn, onpath)
        if not cnt[0]:
            self.fail(name, "no path (contradictory precondition)")

    # ---------------------------------------------------------- obligations
    def ok(self, name, backend, secs=0.0):
        if self.it.mute:
            return
        self.obl.append((name, "discharged", backend, secs, ""))

    def fail(self, name, detail="", backend=""):
        if self.it.mute:
            return
        self.obl.append((name, "failed", backend, 0.0, str(detail)[:3000]))

    def check(self, name, fn, detail=None):
        if self.it.mute:
            return True          # the same statement is an obligation of another execution
        t0 = time.time()
        z0 = prover.STATS.z3_calls
        r = fn()
        dt = time.time() - t0
        be = "z3+normal form" if prover.STATS.z3_calls > z0 else "normal form"
        if r:
            self.obl.append((name, "discharged", be, dt, ""))
        else:
            d = detail() if callable(detail) else (detail or "")
            self.obl.append((name, "failed", be, dt, str(d)[:3000]))
        return r

    def eq(self, name, a, b):
        a, b = _t(a), _t(b)
        return self.check(name, lambda: self.ctx.prove_eq(a, b),
                          lambda: "cannot prove\n   code: %s\n   spec: %s\n   under: %s" % (
                              tm.show(self.ctx.canon(a) if not a.sp else a)[:1200],
                              tm.show(self.ctx.canon(b) if not b.sp else b)[:800],
                              " ; ".join(tm.show(x)[:120] for x in self.ctx.asm[-8:])))

    def holds(self, name, g):
        g = _t(g)
        return self.check(name, lambda: self.ctx.prove(g),
                          lambda: "cannot prove %s under %s" % (
                              tm.show(g)[:1500], " ; ".join(tm.show(x)[:150] for x in self.ctx.asm[-10:])))

    def le(self, name, a, b):
        return self.holds(name, tm.le(_t(a), _t(b)))

    def lt(self, name, a, b):
        return self.holds(name, tm.lt(_t(a), _t(b)))

    def is_true(self, name, cond, detail=""):
        if cond:
            self.ok(name, "structural")
        else:
            self.fail(name, detail)
        return cond

    def shape(self, name, a, shape):
        if not isinstance(a, (Arr, MArr)):
            return self.is_true(name, False, "not an array: %r" % (a,))
        if len(a.shape) != len(shape):
            return self.is_true(name, False, "shape %s instead of %s" % (
                [tm.show(s) for s in a.shape], [tm.show(s) for s in shape]))
        return self.holds(name, tm.and_(*[tm.eq(x, y) for x, y in zip(a.shape, shape)]))

    def defined(self, name, t):
        for guards, goal in self.ctx.defined(_t(t)):
            def f(guards=guards, goal=goal):
                self.ctx.push()
                try:
                    for g in guards:
                        self.ctx.assume(g)
                    return self.ctx.inconsistent() or self.ctx.prove(goal)
                finally:
                    self.ctx.pop()
            self.check(name + ": defined", f, lambda: "cannot prove %s" % tm.show(goal)[:800])

    class scope:
        def __init__(self, h, *conds):
            self.h, self.conds = h, conds

        def __enter__(self):
            self.h.ctx.push()
            for c in self.conds:
                self.h.ctx.assume(c)
            return self.h

        def __exit__(self, *a):
            self.h.ctx.pop()

    def under(self, *conds):
        return H.scope(self, *conds)

    def reachable(self, name):
        self.check(name + ": precondition satisfiable", lambda: self.ctx.check() != "unsat")


def _t(x):
    if isinstance(x, tm.T):
        return x
    if isinstance(x, Arr) and x.ndim:
        raise ObligationFailed("scalar expected, code returns an array of shape %s" % (
            [tm.show(s) for s in x.shape],))
    if not is_scalar(x) and not isinstance(x, Arr):
        raise ObligationFailed("number expected, code returns %r" % (x,))
    return tv(x)


# ---------------------------------------------------------------- groups
class Group:
    def __init__(self, fn, name, bounds=None, unbounded=True, timeout=150, tier="quick", label=None):
        self.fn, self.name, self.bounds, self.unbounded = fn, name, bounds, unbounded
        self.timeout, self.tier = timeout, tier
        self.label = label


def group(name=None, bounds=None, unbounded=True, timeout=150, tier="quick", label=None):
    def deco(fn):
        return Group(fn, name or fn.__name__, bounds, unbounded, timeout, tier, label)
    return deco


def integral(g, *names, label=None):
    """The group once more with the named arrays of integer type (what is written into arrays like them is truncated)."""
    def fn(h):
        h.ints = names
        g.fn(h)
    return Group(fn, g.name + (label or ", integer arrays"), g.bounds, g.unbounded, g.timeout, g.tier, g.label)


def _alarm(sig, frm):
    raise Timeout()


def run_one(g, sizes):
    """Run a group once; returns a result dict."""
    t0 = time.time()
    h = H(sizes)
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(g.timeout))
    try:
        # case distinctions made while a group is set up: the whole group is run once per case
        stack, split = [[]], False
        while stack:
            prefix = stack.pop()
            before = h
            h = H(sizes)
            h.obl = h.it.obl = before.obl
            h.paths = before.paths
            h.notes.extend(n for n in before.notes if n not in h.notes)
            h.it.called |= before.it.called
            h.it.used_models |= before.it.used_models
            p = Path()
            p.prefix, p.setup = prefix, True
            if split:
                h.it.path = p
            try:
                g.fn(h)
            except Unsupported as e:
                if split or "decision outside exploration" not in str(e):
                    raise
                split = True
                stack.append([])
                h = H(sizes)
            except Infeasible:
                pass
            except ObligationFailed as e:
                h.fail(g.name + ": result", str(e))
            except PyRaise as e:
                h.fail(g.name + ": no exception", "%s: %s at %s" % (e.name, e.msg, h.it.where))
            for i in range(len(prefix), len(p.decisions)):
                stack.append([d for _, d in p.decisions[:i]] + [not p.decisions[i][1]])
            if len(stack) > 40:
                raise Unsupported("too many cases while the group is set up")
    except Unsupported as e:
        err = ("unsupported", "%s (near %s)" % (e, h.it.where))
    except Timeout:
        err = ("timeout", "obligation generation or proof exceeded %d s near %s" % (g.timeout, h.it.where))
    except RecursionError as e:
        err = ("unsupported", "recursion limit")
    except Exception as e:
        err = ("unsupported", "internal: %s" % traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    if err is None and not h.obl:
        h.fail(g.name + ": non-vacuous", "no obligation was generated")
    return {"group": g.name, "sizes": sizes, "obl": h.obl, "error": err, "paths": h.paths,
            "called": sorted(h.it.called), "models": sorted(map(str, h.it.used_models)),
            "notes": h.notes, "secs": time.time() - t0,
            "z3_calls": prover.STATS.z3_calls, "z3_time": prover.STATS.z3_time}


def _worker(args):
    modname, idx, sizes = args
    sys.setrecursionlimit(20000)
    import importlib
    prover.STATS.__init__()
    try:
        m = importlib.import_module(modname)
        return run_one(m.GROUPS[idx], sizes)
    except BaseException as e:      # pragma: no cover
        return {"group": "?", "sizes": sizes, "obl": [], "error": ("unsupported", "worker: %r" % (e,)),
                "paths": 0, "called": [], "models": [], "notes": [], "secs": 0, "z3_calls": 0, "z3_time": 0}


def run_property(modname, tier="quick", procs=8):
    """All groups of a property; unsupported unbounded groups fall back to bounded instances."""
    import importlib
    m = importlib.import_module(modname)
    jobs = []
    for i, g in enumerate(m.GROUPS):
        if g.tier == "thorough" and tier != "thorough":
            continue
        if g.unbounded:
            jobs.append((modname, i, None))
        else:
            for s in g.bounds:
                jobs.append((modname, i, s))
    results = []
    with mp.get_context("fork").Pool(procs, maxtasksperchild=1) as pool:
        first = pool.map(_worker, jobs, chunksize=1)
        again = []
        for (mn, i, s), r in zip(jobs, first):
            g = m.GROUPS[i]
            r["index"] = i
            r["kind"] = "unbounded" if s is None else "bounded"
            bad = [o for o in r["obl"] if o[1] != "discharged"]
            if s is None and r["error"] is not None and not bad and g.bounds:
                r["superseded"] = True
                again += [(mn, i, b) for b in g.bounds]
            results.append(r)
        if again:
            for (mn, i, s), r in zip(again, pool.map(_worker, again, chunksize=1)):
                r["index"] = i
                r["kind"] = "fallback"
                results.append(r)
    return m, results
