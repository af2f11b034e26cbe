from contracts.common import *
from vc.harness import integral as integers
from vc.calculus import diff

TS = "bfit.measure.TsallisDivergence"
ZR, O = num(0.0), num(1.0)


def inputs(h, above_one):
    N = h.size("N")
    f, g = h.arr("f", (N,)), h.arr("g", (N,))
    al = h.real("alpha")
    mask = h.real("mask", nonneg=True)
    if above_one:
        h.assume(tm.le(add(O, num(1e-10)), al))
        h.forall(N, lambda k: tm.le(ZR, el(f, k)))
    else:
        h.assume(tm.lt(ZR, al))
        h.assume(tm.le(al, sub(O, num(1e-10))))
        h.forall(N, lambda k: tm.lt(ZR, el(f, k)))
    i = h.index("i", N)
    return N, f, g, al, mask, i


def exact(h, above_one, earlier=False):
    N, f, g, al, mask, i = inputs(h, above_one)
    fi, gi = el(f, i), el(g, i)
    a1 = sub(al, O)

    def obj():
        o = h.call(TS, al, mask_value=mask)
        if earlier:
            f2, g2 = h.arr("f2", (N,)), h.arr("g2", (N,))
            h.meth(o, "evaluate", f2, g2, deriv=True)
            h.inplace(lambda: h.meth(o, "evaluate", f, g, deriv=True), f, g)
        return o
    spec = lambda x: div(mul(fi, sub(tm.pow_(div(fi, x), a1), O)), a1)

    def value(tag, v):
        h.shape(tag + " shape", v, (N,))
        with h.under(tm.lt(mask, gi), tm.lt(ZR, fi)):
            h.eq(tag + " above the mask", el(v, i), spec(gi))
            h.defined(tag + " above the mask", el(v, i))
        if above_one:
            with h.under(tm.lt(mask, gi), tm.eq(fi, ZR)):
                h.eq(tag + " above the mask, zero density", el(v, i), ZR)
            with h.under(tm.le(gi, mask)):
                h.eq(tag + " masked = -f/(alpha-1)", el(v, i), tm.neg(div(fi, a1)))

    def post2(v):
        h.is_true("pair returned", isinstance(v, tuple) and len(v) == 2, repr(v))
        k, dk = v
        value("value (deriv)", k)
        h.shape("derivative shape", dk, (N,))
        x = sym("x")
        with h.under(tm.lt(mask, gi), tm.lt(ZR, fi)):
            h.eq("derivative = -(f/g)^alpha", el(dk, i), tm.neg(tm.pow_(div(fi, gi), al)))
            d = tm.subst(diff(spec(x), x), {x: gi})
            h.eq("derivative is d value / d g", el(dk, i), d)
        if above_one:
            with h.under(tm.lt(mask, gi), tm.eq(fi, ZR)):
                h.eq("derivative, zero density", el(dk, i), ZR)
            with h.under(tm.le(gi, mask)):
                h.eq("derivative masked = 0", el(dk, i), ZR)
    h.run("evaluate(deriv=False)", lambda: h.meth(obj(), "evaluate", f, g), lambda v: value("value", v))
    h.run("evaluate(deriv=True)", lambda: h.meth(obj(), "evaluate", f, g, deriv=True), post2)


BD = [{"N": 1}, {"N": 3}]


@group(bounds=BD)
def above_one(h):
    exact(h, True)


@group(bounds=BD)
def below_one(h):
    exact(h, False)


@group(bounds=BD)
def no_history(h):
    exact(h, True, earlier=True)


@group()
def orders_refused(h):
    al = h.real("alpha")
    with h.under(tm.lt(al, ZR)):
        h.refused("negative order refused", lambda: h.call(TS, al))
    h.refused("order one refused", lambda: h.call(TS, O))
    h.refused("order one (int) refused", lambda: h.call(TS, ONE))
    with h.under(tm.lt(ZR, al), tm.or_(tm.le(al, sub(O, num(1e-10))), tm.le(add(O, num(1e-10)), al))):
        h.run("valid order accepted and published", lambda: h.attr(h.call(TS, al), "alpha"),
              lambda v: h.eq("alpha", v, al))


GROUPS = [above_one, below_one, no_history, orders_refused]


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n, label=", integer " + " ".join(n)) for g in GROUPS[:] for n in (("f", "g"), ("f",), ("g",))]
