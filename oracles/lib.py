"""Run-time contracts of the real functions: postconditions evaluated on generated inputs."""
import functools
import inspect
import json
import os
import sys
import time
import traceback
import warnings

import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")


def brief(x):
    if isinstance(x, np.ndarray):
        if x.size <= 24:
            return x.tolist()
        return {"shape": list(x.shape), "head": x.ravel()[:8].tolist()}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): brief(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [brief(v) for v in list(x)[:24]]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:200]


class Stop(Exception):
    pass


class Oracle:
    def __init__(self, seed, tier, budget):
        self.seed, self.tier, self.budget = seed, tier, budget
        self.rng = np.random.default_rng(seed)
        self.t0 = time.time()
        self.n = 0
        self.kinds = {}
        self.samples = []
        self.failures = []
        self.rule = ""
        self._bufs = {}
        self.trng = np.random.default_rng(seed + 7919)
        self._deep = False
        self.earlier = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    def more(self, k, limit):
        """k-th round of at most limit (quick) or 12*limit (thorough)."""
        if self.left() < 1.0:
            return False
        return k < (limit if self.tier == "quick" else 12 * limit)

    def rounds(self, limit, first=0):
        k = first
        while self.more(k, limit):
            yield k
            k += 1

    # -------------------------------------------------- verdicts
    def count(self, kind):
        self.n += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    def fail(self, what, inputs, observed=None, key=None):
        if len([f for f in self.failures if f["what"] == what]) >= 2:
            return
        d = {"what": what, "input": brief(inputs), "observed": brief(observed), "key": key or what}
        if self.earlier:
            d["earlier_calls"] = brief(self.earlier[-4:])
        self.failures.append(d)
        if len(self.failures) >= 12:
            raise Stop()

    def ok(self, what, cond, inputs, observed=None, key=None):
        self.count(what)
        if len(self.samples) < 8 and self.kinds[what] == 1:
            self.samples.append({"contract": what, "input": brief(inputs)})
        if not cond:
            self.fail(what, inputs, observed, key)
        return bool(cond)

    def close(self, what, got, want, inputs, rtol=1e-9, atol=1e-11, key=None):
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            good = g.shape == w.shape and np.all(
                (np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w) | (np.isnan(g) & np.isnan(w)))
        except Exception as e:
            return self.ok(what, False, inputs, "%s: %s" % (type(e).__name__, e), key)
        return self.ok(what, good, inputs, {"got": got, "expected": want}, key)

    def refused(self, what, fn, inputs, exc=Exception, key=None):
        try:
            r = fn()
        except exc:
            return self.ok(what, True, inputs)
        except Exception as e:
            return self.ok(what, False, inputs, "raises %s: %s" % (type(e).__name__, e), key)
        return self.ok(what, False, inputs, {"accepted, returns": r}, key)

    def call(self, what, fn, inputs):
        """Well-formed input must be accepted."""
        try:
            r = fn()
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.ok(what + " accepts well-formed input", False, inputs,
                    "%s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno))
            return None
        self.count(what + " accepts well-formed input")
        return r

    def untouched(self, what, before, after, inputs):
        for k in before:
            a, b = before[k], after[k]
            if not (a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")):
                self.ok(what, False, inputs, {"argument %s" % k: {"before": a, "after": b}})
                return False
        return self.ok(what, True, inputs)

    # -------------------------------------------------- generators
    def buf(self, *xs):
        """The same values, often in arrays that were passed before and are now overwritten in place."""
        out = []
        for i, x in enumerate(xs):
            x = np.asarray(x)
            if self.rng.random() < 0.7:
                b = self._bufs.setdefault((i, x.shape, x.dtype.str), np.empty_like(x))
                b[...] = x
                x = b
            out.append(x)
        return out if len(out) > 1 else out[0]

    def twin(self, x):
        """Another argument that a careless key could confuse with x (same shape, often the same ends, total or order)."""
        r = self.trng
        if isinstance(x, (bool, np.bool_)):
            return bool(x) if r.random() < 0.7 else not x
        if isinstance(x, float) and np.isfinite(x):
            return x * (1 + 1e-3 * r.random())
        if isinstance(x, (int, np.integer)):
            return x + int(r.integers(-1, 2)) if 0 < x < 1000 else x
        if isinstance(x, np.ndarray) and x.ndim and x.dtype.kind in "iu":
            return r.permutation(x) if r.random() < 0.5 else x
        if not isinstance(x, np.ndarray) or x.size == 0 or x.dtype.kind != "f":
            return x
        y = x.copy().reshape(-1)
        n = y.size
        up = n > 1 and np.all(np.diff(y) >= 0)
        how = r.integers(6)
        if how == 0:
            y *= 1 + 0.3 * r.random(n)
        elif how == 1 and n > 2:
            y[1:-1] = y[1:-1] * (1 + 0.3 * r.random(n - 2))
        elif how == 2 and n > 2:
            y[1:-1] = r.permutation(y[1:-1])
        elif how == 3:
            k = r.integers(n)
            y[k] *= 1 + 10.0 ** r.uniform(-7, -1)
        elif how == 4:
            y = r.permutation(y)
        else:
            y *= 1 + 10.0 ** r.uniform(-6, 1)
        return (np.sort(y) if up else y).reshape(x.shape)

    def haunt(self, cls, *names, p=0.3, alts=None):
        """Results must not depend on earlier calls: calls of these methods are often preceded by calls of the same method
        with other arguments of the same form (results discarded)."""
        for nm in names:
            raw = inspect.getattr_static(cls, nm, None)
            static = isinstance(raw, staticmethod)
            cm = isinstance(raw, classmethod)
            fn = raw.__func__ if static or cm else raw
            if not inspect.isfunction(fn):
                continue
            w = self._haunted(fn, p, alts or {}, nm)
            setattr(cls, nm, staticmethod(w) if static else classmethod(w) if cm else w)

    def _haunted(self, fn, p, alts, nm):
        @functools.wraps(fn)
        def call(*args, **kw):
            if not self._deep and self.trng.random() < p:
                self._deep = True
                try:
                    for _ in range(self.trng.integers(1, 3)):
                        self._ghost_call(fn, args, kw, alts, nm)
                finally:
                    self._deep = False
            return fn(*args, **kw)
        return call

    def _ghost_call(self, fn, args, kw, alts, nm):
        t = lambda k, v: (alts[k][self.trng.integers(len(alts[k]))] if k in alts and self.trng.random() < 0.5 else
                          v if self.trng.random() < 0.3 else self.twin(v))
        a = [t(i, v) for i, v in enumerate(args)]
        b = {k: t(k, v) for k, v in kw.items()}
        saved = []
        if self.trng.random() < 0.3:           # the very same array objects, with other contents at that time
            for i, v in enumerate(args):
                if isinstance(v, np.ndarray) and v.flags.writeable and isinstance(a[i], np.ndarray) and a[i].shape == v.shape:
                    saved.append((v, v.copy(), a[i]))
                    a[i] = v
        try:
            for v, _, new in saved:
                v[...] = new
            self.earlier = self.earlier[-3:] + [{nm: [brief(v) for v in a if not hasattr(v, "__dict__") or isinstance(v, np.ndarray)]}]
            if nm == "__init__":
                type(a[0])(*a[1:], **b)        # another object of the class
            else:
                fn(*a, **b)
        except Exception:
            pass
        finally:
            for v, old, _ in saved:
                v[...] = old

    def counts(self, hi=4, zero=True):
        while True:
            a, b = self.rng.integers(0, hi + 1, 2)
            if a + b:
                return int(a), int(b)

    def whole(self, *xs, p=0.1):
        """The arrays, sometimes as arrays of integers (away from zero)."""
        r = self.trng.random()
        xs = [np.asarray(x) for x in xs]
        if r < p and all(x.size == 0 or np.max(np.abs(x)) < 1e6 for x in xs):
            pick = [r < 0.6 * p or self.trng.random() < 0.5 for _ in xs]
            xs = [np.where(x > 0, np.ceil(x), np.floor(x)).astype(int) if q else x for x, q in zip(xs, pick)]
        return xs if len(xs) > 1 else xs[0]

    def expons(self, n, lo=-2, hi=3):
        return 10.0 ** self.rng.uniform(lo, hi, n)

    def coeffs(self, n, positive=False):
        c = self.rng.normal(size=n) * 10.0 ** self.rng.uniform(-1, 2)
        if positive:
            c = np.abs(c) + 1e-3
        elif n and self.rng.random() < 0.2:
            c[self.rng.integers(n)] = 0.0
        return c

    def pick(self, *xs):
        return xs[self.rng.integers(len(xs))]
