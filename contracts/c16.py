"""The fixed-point loop.  _update_params and goodness_of_fit are used through their contracts (C14, C13): iterate n has
parameters C(n, .), E(n, .) and report P(n, .).  The loop is verified for every number of iterations (vc/induct.py)."""
from contracts.fitbase import *
from vc.harness import integral as integers

GROUPS = []
LEVEL_NOTE = "loop invariants are inferred as closed forms in the iteration number and proved inductive on every run"


class Run:
    def __init__(self, h, opt, dims=1, finite=True):
        self.h, self.opt = h, opt
        self.s = s = Fit(h, dims, False, False)
        s.model = s.make_model()
        self.M = s.M
        self.c0, self.e0 = h.arr("c0", (s.M,)), h.arr("e0", (s.M,))
        h.assume(tm.not_(tm.eq(s.I(lambda k: el(s.f, k)), ZR)))
        self.o = h.call(FPI, s.make_grid(), s.f, s.model)
        self.ct, self.et, self.dt = (h.real(n, nonneg=True) for n in ("ct", "et", "dt"))
        self.maxiter = tm.sym("maxiter", I)
        if h.sizes is not None:
            self.maxiter = num(h.sizes["maxiter"])
        h.assume(tm.le(Z, self.maxiter))
        h.it.ghost["inductive"] = True
        h.it.contracts[("bfit.fit", "KLDivergenceFPI._update_params")] = self.update
        h.it.contracts[("bfit.fit", "_BaseFit.goodness_of_fit")] = self.report
        h.it.contracts[("bfit.fit", "KLDivergenceFPI.goodness_of_fit")] = self.report
        self.reach = []
        self.fam = ""

    def earlier(self):
        """The object has run before, from another guess (two steps at most)."""
        h, keep = self.h, (self.c0, self.e0, self.maxiter)
        g = {k: h.it.ghost.pop(k, None) for k in ("inductive", "loop_step", "loop_invariant")}
        self.c0, self.e0 = h.arr("hc0", (self.M,)), h.arr("he0", (self.M,))
        self.fam = "h!"
        try:
            h.meth(self.o, "run", self.c0, self.e0, opt_coeffs=self.opt[0], opt_expons=self.opt[1], maxiter=1,
                   c_threshold=Num(self.ct), e_threshold=Num(self.et), d_threshold=Num(self.dt))
        finally:
            self.c0, self.e0, self.maxiter = keep
            self.fam = ""
            h.it.ghost.update({k: v for k, v in g.items() if v is not None})

    # iterate n, n >= 1 made by steps; 0 is the guess
    def C(self, n, j):
        if not self.opt[0]:
            return el(self.c0, j)
        n = tm.lift(n)
        return el(self.c0, j) if n is Z else app(self.fam + "C", n, j)

    def E(self, n, j):
        if not self.opt[1]:
            return el(self.e0, j)
        n = tm.lift(n)
        return el(self.e0, j) if n is Z else app(self.fam + "E", n, j)

    def P(self, n, i):
        return app(self.fam + "P", n, num(i))

    def which(self, c, e):
        """Iterate number of a parameter pair."""
        h = self.h
        j = tm.fresh("j", I)
        h.ctx.push()
        try:
            h.ctx.assume(tm.and_(tm.le(Z, j), tm.lt(j, self.M)))
            for a, f, g in ((c, "C", self.C), (e, "E", self.E)):
                t = h.ctx.canon(el(a, j))
                if t.op == "app" and t.args[0] == self.fam + f:
                    n = t.args[1]
                    break
            else:
                n = Z
            for nm, a, g in (("coefficients", c, self.C), ("exponents", e, self.E)):
                h.shape("length of the %s" % nm, a, (self.M,))
                h.eq("%s and %s belong to one iterate" % (nm, "the rest"), el(a, j), g(n, j))
            return n
        finally:
            h.ctx.pop()

    def update(self, it, args, kw):
        d = dict(zip(["self", "coeffs", "expons", "update_coeffs", "update_expons"], args))
        d.update(kw)
        uc, ue = it.truthy(d.get("update_coeffs", True)), it.truthy(d.get("update_expons", False))
        self.h.is_true("the step updates exactly the optimised groups", (uc, ue) == tuple(self.opt), "%s %s" % (uc, ue))
        n = self.which(d["coeffs"], d["expons"])
        if not self.fam:
            self.h.holds("a step is only taken while the stopping rule says so", self.go_on(n))
        m = add(n, ONE)
        it.used_models.add("contract of KLDivergenceFPI._update_params (C14)")
        f = self.fam
        mk = lambda old, nm, on: Arr(Buf(lambda ix: app(f + nm, m, ix[0]), (self.M,), "f")) if on else old
        return (mk(d["coeffs"], "C", uc), mk(d["expons"], "E", ue))

    def report(self, it, args, kw):
        d = dict(zip(["self", "coeffs", "expons"], args))
        d.update(kw)
        n = self.which(d["coeffs"], d["expons"])
        it.used_models.add("contract of goodness_of_fit (C13)")
        return PList([Num(self.P(n, i), True) for i in range(5)])

    # ---------------------------------------------------------------- stopping rule
    def dmax(self, fn, n):
        if not self.opt[0 if fn == self.C else 1]:
            return ZR
        return tm.max_(Z, self.M, lambda j: tm.abs_(sub(fn(n, j), fn(sub(n, ONE), j))))

    def go_on(self, n):
        """Another step is documented after n steps."""
        n = tm.lift(n)
        more = tm.lt(n, self.maxiter)
        if n is Z:
            return more
        par = tm.or_(tm.lt(self.ct, self.dmax(self.C, n)), tm.lt(self.et, self.dmax(self.E, n)))
        if n is ONE:
            return tm.and_(more, par)
        dd = tm.abs_(sub(self.P(n, 4), self.P(sub(n, ONE), 4)))
        return tm.and_(more, par, tm.lt(self.dt, dd))

    def exhausted(self, n):
        """The run stopped at the limit although the thresholds asked for another step."""
        n = tm.lift(n)
        lim = tm.eq(n, self.maxiter)
        if n is Z:
            return lim
        par = tm.or_(tm.lt(self.ct, self.dmax(self.C, n)), tm.lt(self.et, self.dmax(self.E, n)))
        if n is ONE:
            return tm.and_(lim, par)
        dd = tm.abs_(sub(self.P(n, 4), self.P(sub(n, ONE), 4)))
        return tm.and_(lim, par, tm.lt(self.dt, dd))


def goal(opt, warm=False):
    @group("run coeffs=%s expons=%s" % opt + (" after an earlier run" if warm else ""), bounds=[{"N": 2, "ns": 1, "np": 1, "maxiter": m} for m in (0, 1, 2)])
    def g(h):
        r = Run(h, opt)
        # state after n steps: step n - 1 was taken, hence (obligation above) the rule asked for it
        h.it.ghost["loop_invariant"] = lambda n: h.assume(r.go_on(sub(n, ONE)))
        j = h.index("j", r.M)

        def post(v):
            get = lambda k: h.it.getitem(v, k)
            perf, fun = get("performance"), get("fun")
            h.is_true("records are arrays", isinstance(perf, Arr) and isinstance(fun, Arr))
            h.is_true("objective record is one-dimensional", fun.ndim == 1)
            n = h.ctx.canon(fun.shape[0])
            h.eq("one report per step", perf.shape[0], n)
            h.le("number of steps within the limit", n, r.maxiter)
            h.eq("coefficients of the last step", el(get("coeffs"), j), r.C(n, j))
            h.eq("exponents of the last step", el(get("exps"), j), r.E(n, j))
            h.holds("stopping rule satisfied", tm.not_(r.go_on(n)))
            if n is not Z:
                k = h.index("k", n)
                h.eq("recorded objective", el(fun, k), r.P(add(k, ONE), 4))
                for i in range(5):
                    h.eq("recorded report %d" % i, el(perf, k, num(i)), r.P(add(k, ONE), i))
            suc = get("success")
            ok = h.it.truthy(suc)
            if ok:
                h.holds("success is not reported when the limit was exhausted", tm.not_(r.exhausted(n)))
            else:
                h.eq("failure is only reported at the limit", n, r.maxiter)
        def go():
            if warm:
                r.earlier()
            return h.meth(r.o, "run", r.c0, r.e0, opt_coeffs=opt[0], opt_expons=opt[1], maxiter=Num(r.maxiter),
                          c_threshold=Num(r.ct), e_threshold=Num(r.et), d_threshold=Num(r.dt))
        h.run("run", go, post)
    GROUPS.append(g)


for _o in ((True, False), (False, True), (True, True)):
    goal(_o)
    goal(_o, True)


def diverged(what, steps):
    """The parameters or the objective of the last step are not finite: success is never reported."""
    @group("not finite: %s after %d steps" % (what, steps), bounds=[{"N": 2, "ns": 1, "np": 1, "maxiter": steps}])
    def g(h):
        r = Run(h, (True, True))
        h.it.ghost["inductive"] = False
        r.maxiter = num(steps)
        flag = tm.app("bad", ONE, sort=tm.B)
        b = h.index("b", r.M)
        C, E, P = r.C, r.E, r.P
        last = [None]

        def spoil(t, n, j=None):
            return tm.ite(tm.and_(tm.eq(j, b), tm.eq(n, num(steps))) if j is not None else tm.eq(n, num(steps)),
                          {"NaN": tm.mnan(tm.TRUE, ZR), "inf": tm.INF}[what.split()[1]], t)
        kind = what.split()[0]

        def update(it, args, kw):
            d = dict(zip(["self", "coeffs", "expons", "update_coeffs", "update_expons"], args))
            m = num(r.cnt + 1)
            r.cnt += 1
            fc = (lambda ix: spoil(C(m, ix[0]), m, ix[0])) if kind == "coefficient" else (lambda ix: C(m, ix[0]))
            fe = (lambda ix: spoil(E(m, ix[0]), m, ix[0])) if kind == "exponent" else (lambda ix: E(m, ix[0]))
            return (Arr(Buf(fc, (r.M,), "f")), Arr(Buf(fe, (r.M,), "f")))

        def report(it, args, kw):
            m = num(r.cnt)
            return PList([Num(P(m, i), True) for i in range(4)] + [Num(spoil(P(m, 4), m) if kind == "objective" else P(m, 4), True)])
        h.it.contracts[("bfit.fit", "KLDivergenceFPI._update_params")] = update
        h.it.contracts[("bfit.fit", "_BaseFit.goodness_of_fit")] = report
        h.it.contracts[("bfit.fit", "KLDivergenceFPI.goodness_of_fit")] = report

        def go():
            r.cnt = 0
            return h.meth(r.o, "run", r.c0, r.e0, maxiter=Num(r.maxiter), c_threshold=Num(r.ct), e_threshold=Num(r.et),
                          d_threshold=Num(r.dt))

        def post(v):
            if r.cnt == steps:
                h.is_true("diverged run is not a success", h.it.truthy(h.it.getitem(v, "success")) is False)
        h.run("run", go, post)
    GROUPS.append(g)


for _w in ("coefficient", "exponent", "objective"):
    for _k in ("NaN", "inf"):
        for _s in (1, 2):
            diverged("%s %s" % (_w, _k), _s)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n.split(), label=", integer " + n) for g in GROUPS[:] for n in ('c0 e0', 'f')]
