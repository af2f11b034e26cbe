from contracts.fitbase import *
from vc.harness import integral as integers

GROUPS = []
BD = [{"N": 2, "ns": 1, "np": 1}, {"N": 3, "ns": 2, "np": 0}]
KLM = lambda f, g, m: tm.ite(tm.or_(tm.eq(f, ZR), tm.le(g, m)), ZR, mul(f, tm.log(div(f, g))))


def build(s, cls, target, **kw):
    h = s.h
    model = s.make_model()
    grid = s.make_grid()
    a = dict(mask_value=s.mask, spherical=s.spherical)
    if target is not None:
        a["integral_dens"] = target
    if cls == SCI:
        a["measure"] = h.call("bfit.measure.SquaredDifference")
    a.update(kw)
    if cls == FPI:
        # a Lagrange multiplier of zero is refused (zero density)
        h.assume(tm.not_(tm.eq(s.I(lambda k: el(s.f, k)), ZR)))
        if target is not None:
            h.assume(tm.not_(tm.eq(tv(target), ZR)))
    return h.call(cls, grid, s.f, model, **a)


def integrals(cls, dims, spherical):
    @group("integrate %s %dD spherical=%s" % (cls.split(".")[-1], dims, spherical), bounds=BD)
    def g(h):
        s = Fit(h, dims, False, spherical)
        y = h.arr("y", (s.N,))
        T = h.real("T")
        for target, want in ((None, s.I(lambda k: el(s.f, k))), (T, T)):
            if target is not None:
                h.assume(tm.not_(tm.eq(T, ZR)))
            h.run("construct and integrate", lambda: (lambda o: (
                h.meth(o, "integrate", y), h.attr(o, "integral_dens"), h.attr(o, "spherical"), h.meth(o, "integrate", y)))(
                    build(s, cls, target)),
                  lambda v: (h.eq("integrate = grid integral%s" % (" of 4 pi r^2 f" if spherical else ""), v[0], s.I(lambda k: el(y, k))),
                             h.eq("no history", v[3], v[0]),
                             h.eq("target integral", v[1], want),
                             h.is_true("published flag", h.it.truthy(v[2]) == spherical)))
        if not spherical:
            # documented default: no spherical integration
            def dflt():
                model, grid = s.make_model(), s.make_grid()
                kw = {"measure": h.call("bfit.measure.SquaredDifference")} if cls == SCI else {}
                h.assume(tm.not_(tm.eq(s.I(lambda k: el(s.f, k)), ZR)))
                o = h.call(cls, grid, s.f, model, **kw)
                return h.meth(o, "integrate", y), h.attr(o, "integral_dens")
            h.run("defaults", dflt, lambda v: (h.eq("default integrate", v[0], s.I(lambda k: el(y, k))),
                                               h.eq("default target", v[1], s.I(lambda k: el(s.f, k)))))
    GROUPS.append(g)


def report(cls, dims, spherical, negative, other=False):
    @group("report %s %dD spherical=%s%s%s" % (cls.split(".")[-1], dims, spherical, " negative model" if negative else "",
                                              " fitted with another divergence" if other else ""), bounds=BD)
    def g(h):
        s = Fit(h, dims, False, spherical)
        T = h.real("T")
        h.assume(tm.not_(tm.eq(T, ZR)))
        f = lambda k: el(s.f, k)
        gg = lambda k: s.g("0", k)
        c2, e2 = None, None

        def go():
            kw = {}
            if other:
                # the measure of the fit has constants of its own: the report keeps to those of the fit
                kw["measure"] = h.call("bfit.measure.KLDivergence", mask_value=h.real("mask2", nonneg=True), negative_val=h.real("neg2"))
            o = build(s, cls, T, **kw)
            c, e = s.params()
            c2, e2 = s.params("c2", "e2", "1")
            if negative:
                h.assume(tm.lt(s.g("0", s.i), ZR))
            else:
                s.model_nonneg("0")
                s.model_nonneg("1")
                h.meth(o, "goodness_of_fit", c2, e2)       # an earlier report leaves no trace
            return h.it.concrete_items(h.meth(o, "goodness_of_fit", c, e))

        def post(v):
            h.is_true("five numbers", len(v) == 5, repr(v))
            d = lambda k: tm.abs_(sub(f(k), gg(k)))
            h.eq("integral of the model", v[0], s.I(gg))
            h.eq("integral of |f-g|", v[1], s.I(d))
            h.eq("maximum of |f-g|", v[2], tm.max_(Z, s.N, d))
            h.eq("integral of (f-g)^2", v[3], s.I(lambda k: tm.pow_(sub(f(k), gg(k)), num(2))))
            if negative:
                neg = h.attr(h.call("bfit.measure.KLDivergence"), "negative_val")
                h.eq("penalty integral for a negative model", v[4], s.I(lambda k: tv(neg)))
            else:
                h.eq("integral of the masked KL integrand", v[4], s.I(lambda k: KLM(f(k), gg(k), s.mask)))
        h.run("goodness_of_fit", go, post)
    GROUPS.append(g)


for _c in (FPI, SCI):
    integrals(_c, 1, False)
    integrals(_c, 1, True)
    integrals(_c, 3, False)
    report(_c, 1, True, False)
    report(_c, 3, False, False)
    report(_c, 1, False, True)
report(SCI, 1, False, False, True)
report(SCI, 1, False, True, True)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, "f", "x") for g in GROUPS[:]]
