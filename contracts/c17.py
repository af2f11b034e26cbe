"""Objective, gradient and constraint handed to the optimiser, for any measure (contract of Measure.evaluate: value
K(f, g) and derivative dK(f, g) with respect to g, C07-C09) and any model (contract of evaluate, C01-C03)."""
from contracts.fitbase import *
from vc.harness import integral as integers

GROUPS = []
BD = [{"N": 2, "ns": 1, "np": 1}, {"N": 3, "ns": 2, "np": 0}]
K = lambda f, g: app("K", f, g)
DK = lambda f, g: app("dK", f, g)
LEVEL_NOTE = ("the gradient is the derivative of the objective by the chain rule under the sum: dK is the derivative of the "
              "measure (C07-C09) and db of the model (C02)")


class Opt:
    """A ScipyFit problem and a parameter vector x for one of the three modes."""

    def __init__(self, h, mode, dims, spherical, weights, mol=False, target=True, method="slsqp"):
        self.h, self.mode = h, mode
        self.s = s = Fit(h, dims, mol, spherical)
        self.model = s.make_model()
        self.grid = s.make_grid()
        self.meas = h.call("bfit.measure.SquaredDifference")
        h.it.contracts[("bfit.measure", "SquaredDifference.evaluate")] = self.measure
        self.T = h.real("T")
        kw = {"integral_dens": self.T} if target else {}
        self.wt = h.arr("wt", (s.N,)) if weights else None
        if weights:
            kw["weights"] = self.wt
        self.o = h.call(SCI, self.grid, s.f, self.model, measure=self.meas, method=method, mask_value=s.mask,
                        spherical=spherical, **kw)
        self.target = tv(self.T) if target else s.I(lambda k: el(s.f, k))
        self.c, self.e = s.params()
        two = num(2)
        if mode == "both":
            self.args, self.n, self.start = (), mul(two, s.M), Z
            c, e, M = self.c.snap(), self.e.snap(), s.M
            self.x = Arr(Buf(lambda ix: tm.ite(tm.lt(ix[0], M), c(ix), e((sub(ix[0], M),))), (self.n,),
                              self.c.buf.dtype, "x"))
        elif mode == "coeffs":
            self.args, self.n, self.start, self.x = ("fixed_expons", self.e), s.M, Z, self.c
        else:
            self.args, self.n, self.start, self.x = ("fixed_coeffs", self.c), s.M, s.M, self.e

    def weight(self, k):
        return el(self.wt, k) if self.wt is not None else tm.num(1.0)

    def measure(self, it, args, kw):
        h, s = self.h, self.s
        d = dict(zip(["self", "density", "model", "deriv"], args))
        d.update(kw)
        k = tm.fresh("k", I)
        h.ctx.push()
        try:
            h.ctx.assume(tm.and_(tm.le(Z, k), tm.lt(k, s.N)))
            h.eq("the measure gets the density", el(d["density"], k), el(s.f, k))
            h.eq("the measure gets the model at the parameters", el(d["model"], k), s.g(s.last, k))
        finally:
            h.ctx.pop()
        f, g = d["density"].snap(), d["model"].snap()
        it.used_models.add("contract of Measure.evaluate (C07-C09)")
        val = Arr(Buf(lambda ix: K(f(ix), g(ix)), (s.N,), "f"))
        if not it.truthy(d.get("deriv", False)):
            return val
        return (val, Arr(Buf(lambda ix: DK(f(ix), g(ix)), (s.N,), "f")))

    def objective(self):
        s = self.s
        return s.I(lambda k: mul(self.weight(k), K(el(s.f, k), s.g("0", k))))

    def gradient(self, j):
        s = self.s
        return s.I(lambda k: mul(self.weight(k), DK(el(s.f, k), s.g("0", k)), s.db("0", k, add(self.start, j))))

    def constraint(self):
        return sub(self.target, self.s.I(lambda k: self.s.g("0", k)))


def goal(mode, dims, spherical, weights, mol=False, target=True):
    @group("%s %s%dD spherical=%s weights=%s target=%s" % (mode, "molecule " if mol else "", dims, spherical, weights, target),
           bounds=BD if not mol else [{"N": 2, "A": 2, "basis": ((1, 0), (1, 1))}])
    def g(h):
        p = Opt(h, mode, dims, spherical, weights, mol, target)
        s = p.s
        j = h.index("j", p.n)

        def post(v):
            obj, grad = v
            h.eq("objective", obj, p.objective())
            h.shape("one derivative per free parameter", grad, (p.n,))
            h.eq("derivative with respect to parameter j", el(grad, j), p.gradient(j))
        h.run("func", lambda: h.meth(p.o, "func", p.x, *p.args), post)
        h.run("const_norm", lambda: h.meth(p.o, "const_norm", p.x, *p.args),
              lambda v: h.eq("constraint", v, p.constraint()))

        def post2(v):
            m, dm = v
            h.shape("model values", m, (s.N,))
            h.shape("model derivatives", dm, (s.N, p.n))
            h.eq("model value", el(m, s.i), s.g("0", s.i))
            h.eq("model derivative", el(dm, s.i, j), s.db("0", s.i, add(p.start, j)))
        h.run("evaluate_model", lambda: h.meth(p.o, "evaluate_model", p.x, *p.args), post2)

        # no history: other parameters in between
        def again():
            c2, e2 = s.params("c2", "e2", "1")
            h.it.contracts[("bfit.measure", "SquaredDifference.evaluate")] = lambda it, a, k: (
                Arr(Buf(lambda ix: app("K2", ix[0]), (s.N,), "f")), Arr(Buf(lambda ix: app("dK2", ix[0]), (s.N,), "f")))
            if mode == "both":
                a, b, M = c2.snap(), e2.snap(), s.M
                x2 = Arr(Buf(lambda ix: tm.ite(tm.lt(ix[0], M), a(ix), b((sub(ix[0], M),))), (p.n,), "f",
                             "x2"))
            else:
                x2 = c2 if mode == "coeffs" else e2
            h.meth(p.o, "func", x2, *((p.args[0], {"coeffs": e2, "expons": c2}[mode]) if p.args else ()))
            if mode != "both":
                h.inplace(lambda: h.meth(p.o, "func", p.x, *p.args), p.c, p.e)
            h.it.contracts[("bfit.measure", "SquaredDifference.evaluate")] = p.measure
            return h.meth(p.o, "func", p.x, *p.args)
        h.run("func after another evaluation", again, post)
    GROUPS.append(g)


for _m in ("both", "coeffs", "expons"):
    goal(_m, 1, True, True)
    goal(_m, 3, False, True, target=False)
    goal(_m, 1, False, False)
goal("both", 3, False, True, mol=True)
goal("coeffs", 3, False, False, mol=True)
goal("expons", 3, False, True, mol=True)


@group("unknown mode", bounds=BD)
def bad(h):
    p = Opt(h, "both", 1, False, False)
    h.refused("unknown argument is refused", lambda: h.meth(p.o, "func", p.c, "fixed", p.e))


GROUPS.append(bad)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n, label=", integer " + " ".join(n)) for g in GROUPS[:] for n in (("c", "e"), ("f",))]
