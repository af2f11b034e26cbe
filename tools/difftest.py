"""Differential test of the assumed contracts of NumPy, the built-ins and the interpreter: every case of
contracts/stubs/npcases.py is interpreted on symbolic inputs (symbolic sizes, and sizes fixed), the resulting terms are
evaluated at random inputs, and compared with what Python and the real NumPy return."""
import importlib.util
import inspect
import itertools
import math
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import numpy as np
from vc import terms as tm
from vc.harness import H
from vc.values import *
from vc.npmodel import BUILT


class NotGround(Exception):
    pass


class Ev:
    def __init__(self, env, arrs):
        self.env, self.arrs, self.memo = env, arrs, {}

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.go(t)
        return r

    def go(self, t):
        op, a = t.op, t.args
        if op == "num":
            return int(a[0]) if t.sort == "I" else float(a[0])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "inf":
            return math.inf
        if op == "ninf":
            return -math.inf
        if op == "mnan":
            return math.nan if self(a[0]) else self(a[1])
        if op == "sym":
            if a[0] == "pi":
                return math.pi
            if a[0] not in self.env:
                raise NotGround(a[0])
            return self.env[a[0]]
        if op == "app":
            if a[0] not in self.arrs:
                raise NotGround(a[0])
            v = self.arrs[a[0]][tuple(self(x) for x in a[1:])]
            return v.item()
        if op == "ite":
            return self(a[1]) if self(a[0]) else self(a[2])
        if op in ("and", "or"):
            for x in a:
                if self(x) == (op == "or"):
                    return op == "or"
            return op == "and"
        if op in tm.BINDERS:
            h, lo, hi, body = a
            vals = (self(tm.inst(t, tm.num(i))) for i in range(self(lo), self(hi)))
            if op == "Sum":
                return sum(vals)
            if op == "Prod":
                return math.prod(vals)
            if op == "Max":
                return max(vals)
            if op == "Min":
                return min(vals)
            return (all if op == "All" else any)(vals)
        xs = [self(x) for x in a]
        f = {"add": lambda *v: sum(v), "mul": lambda *v: math.prod(v), "div": lambda p, q: p / q, "pow": lambda p, q: p ** q,
             "neg": lambda p: -p, "exp": math.exp, "log": math.log, "cos": math.cos, "sin": math.sin, "abs": abs,
             "floor": math.floor, "ceil": math.ceil, "fact": math.factorial, "idiv": lambda p, q: p // q,
             "imod": lambda p, q: p % q, "le": lambda p, q: p <= q, "lt": lambda p, q: p < q, "eq": lambda p, q: p == q,
             "not": lambda p: not p, "toreal": float}.get(op)
        if f is None:
            raise NotGround("operator " + op)
        return f(*xs)


def concrete(ev, it, v):
    if isinstance(v, (tuple, PList)):
        if isinstance(v, PList) and v.head is not None:
            n = ev(v.head[0])
            return [concrete(ev, it, v.head[1](tm.num(i))) for i in range(n)] + [concrete(ev, it, x) for x in v.items]
        return [concrete(ev, it, x) for x in (v.items if isinstance(v, PList) else v)]
    if isinstance(v, Arr):
        sh = tuple(ev(s) for s in v.shape)
        out = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh):
            out[ix] = ev(v.get(tuple(tm.num(i) for i in ix)))
        return out.astype({"f": float, "i": int, "b": bool}[v.dtype]) if v.dtype != "f" or out.size else out.astype(float)
    if is_scalar(v):
        return ev(tv(v))
    return v


def inputs(rng):
    n, k = int(rng.integers(4, 6)), int(rng.integers(2, 4))
    d = dict(a=rng.normal(size=n) * 1.5, b=rng.normal(size=n), p=10 ** rng.uniform(-0.7, 0.7, n), s=np.sort(rng.normal(size=n)),
             m=rng.normal(size=(n, k)), g=rng.normal(size=(n, 3)), w=rng.integers(0, 9, n), c=rng.random(n) < 0.5,
             ix=rng.integers(0, n, n), x=float(rng.normal() * 2), y=float(rng.normal()), z=float(rng.uniform(0.5, 3)), n=n, k=k)
    return d


def symbolic(h, d, fixed):
    N, K = (tm.num(d["n"]), tm.num(d["k"])) if fixed else (tm.sym("n", "I"), tm.sym("k", "I"))
    if not fixed:
        h.ctx.assume(tm.le(tm.num(3), N))
        h.ctx.assume(tm.le(tm.num(2), K))
    v = {q: h.arr(q, (N,)) for q in "abps"}
    v.update(m=h.arr("m", (N, K)), g=h.arr("g", (N, tm.num(3))), w=h.arr("w", (N,), "i"), ix=h.arr("ix", (N,), "i"),
             c=h.arr("c", (N,), "b"), x=Num(tm.sym("x")), y=Num(tm.sym("y")), z=Num(tm.sym("z")), n=mknum(N), k=mknum(K))
    A = lambda a, i: a.get((i,))
    h.forall(N, lambda i: tm.lt(tm.num(0.0), A(v["p"], i)))
    h.forall(N, lambda i: tm.and_(tm.le(tm.ZERO, A(v["ix"], i)), tm.lt(A(v["ix"], i), N)))
    h.forall(N, lambda i: tm.le(tm.ZERO, A(v["w"], i)))
    h.ctx.assume(tm.all_(tm.ONE, N, lambda i: tm.le(A(v["s"], tm.sub(i, tm.ONE)), A(v["s"], i))))
    h.ctx.assume(tm.lt(tm.num(0.0), tm.sym("z")))
    return v


def run(name, fn, seed):
    rng = np.random.default_rng(seed)
    d = inputs(rng)
    pars = [q for q in inspect.signature(fn).parameters if q in d]
    want = fn(*[d[q].copy() if isinstance(d[q], np.ndarray) else d[q] for q in pars])
    res = []
    for fixed in (False, True):
        h = H()
        v = symbolic(h, d, fixed)
        env = {q: d[q] for q in "nkxyz"}
        arrs = {q: d[q] for q in "abpsmgwc"}
        arrs["ix"] = d["ix"]
        st = []
        base = len(h.ctx.asm)

        def onpath(o):
            syms, hard = set(), [c for c in h.ctx.asm[base:]]
            for c in hard:
                syms |= {s for s in tm.fv(c) if s.op == "sym" and "!" in s.args[0]}
            if len(syms) > 2:
                st.append(("skip", "existential %s" % syms))
                return
            syms = list(syms)
            for vals in itertools.product(range(-1, 13), repeat=len(syms)):
                ev = Ev(dict(env, **{s.args[0]: q for s, q in zip(syms, vals)}), arrs)
                try:
                    if not all(ev(c) for c in hard):
                        continue
                except NotGround as e:
                    st.append(("skip", "not ground: %s" % e))
                    return
                except (IndexError, ZeroDivisionError, ValueError):
                    continue
                if o.kind == "raise":
                    st.append(("bad", "raises %s %s" % (o.value.name, o.value.msg)))
                    return
                try:
                    got = concrete(ev, h.it, o.value)
                except NotGround as e:
                    st.append(("skip", "not ground: %s" % e))
                    return
                g, w = np.asarray(got), np.asarray(want)
                ok = g.shape == w.shape and np.allclose(g.astype(float), w.astype(float), rtol=1e-9, atol=1e-9, equal_nan=True)
                kind_ok = g.size == 0 or not isinstance(want, np.ndarray) or g.dtype.kind == w.dtype.kind
                st.append(("ok", "") if ok and kind_ok else ("bad", "got %s %s want %s %s" % (g.dtype, g.tolist(), w.dtype, w.tolist())))
                return
        try:
            h.it.explore(lambda: h.it.call(h.it.get("stubs.npcases." + name), [v[q] for q in pars], {}), onpath)
        except Unsupported as e:
            st.append(("unsupported", str(e)))
        except Exception as e:
            import traceback
            st.append(("bad", "internal " + traceback.format_exc()[-600:]))
        kinds = [s[0] for s in st]
        r = "bad" if "bad" in kinds else "unsupported" if "unsupported" in kinds else "ok" if "ok" in kinds else "skip" if "skip" in kinds else "no path"
        res.append((r, [s[1] for s in st if s[0] == r][:1]))
    return res


def main():
    spec = importlib.util.spec_from_file_location("npcases", HERE + "/contracts/stubs/npcases.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    cases = [(n, f) for n, f in vars(m).items() if inspect.isfunction(f) and f.__module__ == m.__name__]
    only = [a for a in sys.argv[1:] if not a.isdigit()]
    tot = {}
    bad = 0
    for n, f in cases:
        if only and n not in only:
            continue
        for seed in (1, 2, 3) if not only else (1,):
            for (r, det), mode in zip(run(n, f, seed), ("symbolic", "fixed")):
                tot[(mode, r)] = tot.get((mode, r), 0) + 1
                if r != "ok" and seed == 1 or r in ("bad", "no path"):
                    print("%-10s %-9s %-12s %s" % (n, mode, r, det and det[0][:500]))
                bad += r in ("bad", "no path")
    print(len(cases), "cases;", tot)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
