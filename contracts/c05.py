from contracts.common import *
from vc.harness import integral as integers
from vc.calculus import diff

KL = "bfit.measure.KLDivergence"
ZR = num(0.0)


def ratio(f, g, mask):
    return tm.ite(tm.le(g, mask), num(1.0), div(f, g))


def spec_value(f, g, mask):
    """f ln(f/g), 0 where f = 0, ratio 1 where g <= mask."""
    return tm.ite(tm.or_(tm.eq(f, ZR), tm.le(g, mask)), ZR, mul(f, tm.log(div(f, g))))


def setup(h, default_mask):
    N = h.size("N")
    f, g = h.arr("f", (N,)), h.arr("g", (N,))
    mask = num(1e-12) if default_mask else h.real("mask", nonneg=True)
    h.forall(N, lambda k: tm.le(ZR, el(f, k)))
    i = h.index("i", N)
    return N, f, g, mask, i


def make(h, mask, default_mask, **kw):
    return h.call(KL, **kw) if default_mask else h.call(KL, mask_value=mask, **kw)


def exact(h, default_mask, earlier=False):
    N, f, g, mask, i = setup(h, default_mask)
    h.forall(N, lambda k: tm.le(ZR, el(g, k)))
    h.reachable("non-negative density and model")
    fi, gi = el(f, i), el(g, i)

    def obj():
        o = make(h, mask, default_mask)
        if earlier:
            # an arbitrary earlier evaluation leaves no trace
            f2, g2 = h.arr("f2", (N,)), h.arr("g2", (N,))
            h.meth(o, "evaluate", f2, g2, deriv=True)
            h.inplace(lambda: h.meth(o, "evaluate", f, g, deriv=True), f, g)
        return o

    def value(tag):
        def post(v):
            h.shape("%s shape" % tag, v, (N,))
            h.eq("%s = f ln(f/g) with mask and zero rule" % tag, el(v, i), spec_value(fi, gi, mask))
            h.is_true("%s is finite" % tag, not el(v, i).sp, tm.show(el(v, i)))
            h.defined("%s finite" % tag, el(v, i))
        return post
    h.run("evaluate(deriv=False)", lambda: h.meth(obj(), "evaluate", f, g), value("value"))

    def post2(v):
        h.is_true("pair returned", isinstance(v, tuple) and len(v) == 2, repr(v))
        k, dk = v
        value("value (deriv)")(k)
        h.shape("derivative shape", dk, (N,))
        h.eq("derivative = -ratio", el(dk, i), tm.neg(ratio(fi, gi, mask)))
        h.is_true("derivative is finite", not el(dk, i).sp)
        h.defined("derivative finite", el(dk, i))
        # it is the derivative of the value above the mask
        x = sym("x")
        with h.under(tm.lt(mask, gi), tm.lt(ZR, fi)):
            d = tm.subst(diff(mul(fi, tm.log(div(fi, x))), x), {x: gi})
            h.eq("derivative is d value / d g above the mask", el(dk, i), d)
        with h.under(tm.lt(mask, gi), tm.eq(fi, ZR)):
            h.eq("derivative vanishes with the density above the mask", el(dk, i), ZR)
    h.run("evaluate(deriv=True)", lambda: h.meth(obj(), "evaluate", f, g, deriv=True), post2)


@group(bounds=[{"N": 1}, {"N": 2}, {"N": 4}])
def any_mask(h):
    exact(h, False)


@group(bounds=[{"N": 1}, {"N": 3}])
def default_mask(h):
    exact(h, True)


@group(bounds=[{"N": 1}, {"N": 2}])
def no_history(h):
    exact(h, False, earlier=True)


@group(bounds=[{"N": 1}, {"N": 2}, {"N": 4}])
def penalty(h):
    N, f, g, mask, i = setup(h, False)
    j = h.index("j", N)
    neg = h.real("negval")
    h.assume(tm.lt(el(g, j), ZR))
    h.reachable("a negative model entry")

    def post(v):
        h.shape("penalty shape", v, (N,))
        h.eq("penalty value", el(v, i), neg)

    def post2(v):
        h.is_true("pair returned", isinstance(v, tuple) and len(v) == 2, repr(v))
        for x in v:
            post(x)
    mk = lambda: make(h, mask, False, negative_val=neg)
    h.run("negative model", lambda: h.meth(mk(), "evaluate", f, g), post)
    h.run("negative model, deriv", lambda: h.meth(mk(), "evaluate", f, g, deriv=True), post2)
    h.run("configured values are published", lambda: (lambda o: (h.attr(o, "mask_value"), h.attr(o, "negative_val")))(mk()),
          lambda v: (h.eq("mask_value", v[0], mask), h.eq("negative_val", v[1], neg)))


@group()
def default_penalty(h):
    N, f, g, mask, i = setup(h, True)
    j = h.index("j", N)
    h.assume(tm.lt(el(g, j), ZR))
    h.run("negative model", lambda: h.meth(h.call(KL), "evaluate", f, g),
          lambda v: h.is_true("documented default penalty is finite", not el(v, i).sp and not tm.fv(el(v, i))))


GROUPS = [any_mask, default_mask, no_history, penalty, default_penalty]


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n, label=", integer " + " ".join(n)) for g in GROUPS[:] for n in (("f", "g"), ("f",), ("g",))]
