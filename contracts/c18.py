"""ScipyFit.run.  scipy.optimize.minimize is external: its contract requires the problem described in C18 and ensures
only that it returns some vector of the right length with the objective value there (and any flag and message)."""
from contracts.c17 import Opt
from vc.harness import integral as integers
from contracts.fitbase import *
from vc.values import PDict, PObj, PFunc, OpaqueStr, Unsupported

GROUPS = []
BD = [{"N": 2, "ns": 1, "np": 1}, {"N": 2, "ns": 2, "np": 0}]


class Problem:
    """Requirements on the call of minimize."""

    def __init__(self, h, p, method, constraint, tol, maxiter, success):
        self.h, self.p, self.method, self.constraint = h, p, method, constraint
        self.tol, self.maxiter, self.success, self.calls = tol, maxiter, success, 0
        self.earlier = False
        h.it.ghost["hook:minimize"] = self.minimize
        for n in ("NonlinearConstraint", "Bounds", "LinearConstraint"):
            h.it.ghost["hook:" + n] = self.record(n)
        s = p.s
        self.X = h.arr("X!", (p.n,))
        X = self.X.snap()
        M = s.M
        if p.mode == "both":
            s.register("ans", lambda j: X((j,)), lambda j: X((add(M, j),)))
        elif p.mode == "coeffs":
            s.register("ans", lambda j: X((j,)), lambda j: el(p.e, j))
        else:
            s.register("ans", lambda j: el(p.c, j), lambda j: X((j,)))
        self.Y = h.arr("Y!", (p.n,))
        Y = self.Y.snap()
        if p.mode == "both":
            s.register("try", lambda j: Y((j,)), lambda j: Y((add(M, j),)))
        elif p.mode == "coeffs":
            s.register("try", lambda j: Y((j,)), lambda j: el(p.e, j))
        else:
            s.register("try", lambda j: el(p.c, j), lambda j: Y((j,)))
        self.tag = "try"

    def record(self, name):
        sig = {"NonlinearConstraint": ("fun", "lb", "ub", "jac", "hess", "keep_feasible"), "Bounds": ("lb", "ub", "keep_feasible"),
               "LinearConstraint": ("A", "lb", "ub")}[name]

        def f(it, args, kw):
            d = dict(zip(sig, args))
            d.update(kw)
            d["!"] = name
            return Rec(d)
        return f

    # ------------------------------------------------------------------ contract of minimize
    def minimize(self, it, args, kw):
        h, p, s = self.h, self.p, self.p.s
        if self.earlier:
            return h.call("stubs.optres.Result", h.arr("XH!", (p.n,)), Num(app("FH!")), not self.success, "other message",
                          h.arr("JH!", (p.n,)), 7)
        self.calls += 1
        d = dict(zip(["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options"], args))
        d.update(kw)
        j = tm.fresh("j", I)
        it.ctx.push()
        try:
            it.ctx.assume(tm.and_(tm.le(Z, j), tm.lt(j, p.n)))
            x0 = d["x0"]
            h.shape("length of the starting vector", x0, (p.n,))
            h.eq("starting vector is the initial guess in order", el(x0, j), el(p.x, j))
            self.bounds(d.get("bounds"), j)
            m = d.get("method")
            h.is_true("method", isinstance(m, str) and m.lower() == self.method, repr(m))
            self.options(d)
            extra = d.get("args", ())
            extra = extra if isinstance(extra, tuple) else (extra,)
            v = it.call(d["fun"], [self.Y] + list(extra), {})
            jac = d.get("jac")
            if jac is True:
                obj, grad = v
            else:
                obj, grad = v, (it.call(jac, [self.Y] + list(extra), {}) if jac is not None else None)
            h.eq("objective at any point", obj, self.objective("try"))
            if grad is not None:
                h.shape("gradient length", grad, (p.n,))
                h.eq("gradient at any point", el(grad, j), self.gradient("try", j))
            self.constraints(it, d.get("constraints", ()))
        finally:
            it.ctx.pop()
        it.used_models.add("contract of scipy.optimize.minimize (assumed)")
        res = h.call("stubs.optres.Result", self.X, Num(app("F!")), self.success, "message", h.arr("J!", (p.n,)), 3)
        return res

    def objective(self, tag):
        s, p = self.p.s, self.p
        return s.I(lambda k: mul(p.weight(k), app("K", el(s.f, k), s.g(tag, k))))

    def gradient(self, tag, j):
        s, p = self.p.s, self.p
        return s.I(lambda k: mul(p.weight(k), app("dK", el(s.f, k), s.g(tag, k)), s.db(tag, k, add(p.start, j))))

    def bounds(self, b, j):
        h, p = self.h, self.p
        if isinstance(b, Rec) and b.d["!"] == "Bounds":
            g = lambda x: el(x, j) if isinstance(x, Arr) and x.ndim else tv(x)
            lo, up = g(b.d["lb"]), g(b.d.get("ub", Num(tm.INF)))
        else:
            if b is None:
                h.is_true("bounds are given", False, "no bounds")
                return
            h.eq("one bound per free parameter", h.len(b), p.n)
            pair = h.it.getitem(b, Num(j))
            lo, up = h.it.concrete_items(pair) if not isinstance(pair, tuple) else pair
            if lo is None:
                h.is_true("lower bound", False, "None")
                return
            lo, up = tv(lo), (tm.INF if up is None else tv(up))
        h.lt("lower bound is positive", ZR, lo)
        h.is_true("no upper bound", up is tm.INF or h.ctx.canon(up) is tm.INF, repr(up))

    def options(self, d):
        h = self.h
        o = d.get("options")
        get = lambda k: o.items.get(k) if isinstance(o, PDict) else None
        key = {"slsqp": "ftol", "trust-constr": "xtol"}[self.method]
        t = get(key)
        if t is None and d.get("tol") is not None:
            t = d["tol"]
        if h.is_true("tolerance is passed on", t is not None, repr(o)):
            h.eq("tolerance", tv(t), tv(self.tol))
        m = get("maxiter")
        if h.is_true("iteration limit is passed on", m is not None, repr(o)):
            h.eq("iteration limit", tv(m), tv(self.maxiter))

    def constraints(self, it, cs):
        h = self.h
        if isinstance(cs, (PDict, Rec)):
            cs = [cs]
        else:
            cs = [] if cs is None else list(it.concrete_items(cs))
        if not h.is_true("number of constraints", len(cs) == (1 if self.constraint else 0), repr(cs)):
            return
        for c in cs:
            if isinstance(c, Rec):
                if not h.is_true("kind of constraint", c.d["!"] == "NonlinearConstraint", c.d["!"]):
                    continue
                lb, ub = tv(c.d["lb"]), tv(c.d["ub"])
                h.eq("equality constraint", lb, ub)
                v = sub(tv(it.call(c.d["fun"], [self.Y], {})), lb)
            else:
                h.is_true("equality constraint", c.items.get("type") == "eq", repr(c.items.get("type")))
                extra = c.items.get("args", ())
                v = tv(it.call(c.items["fun"], [self.Y] + list(extra), {}))
            s, p = self.p.s, self.p
            want = sub(p.target, s.I(lambda k: s.g("try", k)))
            if not h.ctx.prove_eq(v, tm.neg(want)):
                h.eq("constraint is on the integral of the model at the same parameters", v, want)
            else:
                h.ok("constraint is on the integral of the model at the same parameters", "normal form")


class Rec:
    def __init__(self, d):
        self.d = d


def goal(mode, method, constraint, dims=1, spherical=False, weights=True, success=True, disp=False, mol=False, warm=False):
    @group("%s %s constraint=%s %dD%s%s%s%s%s" % (mode, method, constraint, dims, " spherical" if spherical else "",
                                                 "" if success else " unsuccessful", " disp" if disp else "", " molecule" if mol else "", " after an earlier run" if warm else ""),
           bounds=BD if not mol else [{"N": 2, "A": 2, "basis": ((1, 0), (1, 1))}])
    def g(h):
        p = Opt(h, mode, dims, spherical, weights, mol=mol, method=method)
        s = p.s
        tol, mi = h.real("tol", nonneg=True), Num(tm.sym("maxiter", I))
        q = Problem(h, p, method, constraint, tol, mi, success)
        p.tag = lambda: "try"
        cell = []

        def gof(it, args, kw):
            d = dict(zip(["self", "coeffs", "expons"], args))
            d.update(kw)
            tag = s.find(d["coeffs"], d["expons"])
            it.used_models.add("contract of goodness_of_fit (C13)")
            return PList([Num(app("report!" + tag, num(i)), True) for i in range(5)])
        for n in ("_BaseFit", "ScipyFit"):
            h.it.contracts[("bfit.fit", n + ".goodness_of_fit")] = gof
        j = h.index("j", s.M)

        def go():
            if warm:
                q.earlier = True
                c2, e2 = h.arr("c2", (s.M,)), h.arr("e2", (s.M,))
                h.meth(p.o, "run", c2, e2, opt_coeffs=mode != "expons", opt_expons=mode != "coeffs", maxiter=3,
                       tol=h.real("tol2", nonneg=True), disp=disp, with_constraint=not constraint)
                q.earlier = False
            q.calls = 0
            return h.meth(p.o, "run", p.c, p.e, opt_coeffs=mode != "expons", opt_expons=mode != "coeffs", maxiter=mi, tol=tol,
                          disp=disp, with_constraint=constraint)

        def post(v):
            get = lambda k: h.it.getitem(v, k)
            h.is_true("the optimiser is called once", q.calls == 1, str(q.calls))
            cj = el(q.X, j) if mode != "expons" else el(p.c, j)
            ej = el(p.e, j) if mode == "coeffs" else el(q.X, j) if mode == "expons" else el(q.X, add(s.M, j))
            h.shape("number of coefficients", get("coeffs"), (s.M,))
            h.shape("number of exponents", get("exps"), (s.M,))
            h.eq("returned coefficients", el(get("coeffs"), j), cj)
            h.eq("returned exponents", el(get("exps"), j), ej)
            h.eq("objective value", get("fun"), app("F!"))
            h.is_true("success flag", h.it.truthy(get("success")) == success)
            h.is_true("message", get("message") == "message", repr(get("message")))
            perf = get("performance")
            for i in range(5):
                h.eq("report %d of the returned parameters" % i, h.it.getitem(perf, i), app("report!ans", num(i)))
        h.run("run", go, post)
    GROUPS.append(g)


for _m in ("both", "coeffs", "expons"):
    for _k in ("slsqp", "trust-constr"):
        for _c in (True, False):
            goal(_m, _k, _c)
        goal(_m, _k, True, dims=3, mol=True, weights=False)
        goal(_m, _k, True, success=False, spherical=True)
        goal(_m, _k, True, disp=True)
        goal(_m, _k, True, warm=True)
        goal(_m, _k, False, warm=True)


@group("nothing to optimise", bounds=BD)
def nothing(h):
    p = Opt(h, "both", 1, False, False)
    h.refused("refused", lambda: h.meth(p.o, "run", p.c, p.e, opt_coeffs=False, opt_expons=False))


GROUPS.append(nothing)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n.split(), label=", integer " + n) for g in GROUPS[:] for n in ('f', 'c e')]
