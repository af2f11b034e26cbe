from contracts.common import *
from vc.harness import integral as integers


def spec(d, m):
    return tm.pow_(sub(d, m), num(2))


@group(bounds=[{"N": 1}, {"N": 3}])
def values(h):
    N = h.size("N")
    f, g = h.arr("f", (N,)), h.arr("g", (N,))
    i = h.index("i", N)
    fi, gi = el(f, i), el(g, i)
    S = h.get("bfit.measure.SquaredDifference")

    def post(v):
        h.shape("value shape", v, (N,))
        h.eq("value = (f-g)^2", el(v, i), spec(fi, gi))
        h.defined("value", el(v, i))
        h.le("value >= 0", num(0.0), el(v, i))
        with h.under(tm.eq(el(v, i), num(0.0))):
            h.eq("zero only at equality", fi, gi)
    h.run("evaluate(deriv=False)", lambda: h.meth(h.call(S), "evaluate", f, g), post)

    def post2(v):
        h.is_true("pair returned", isinstance(v, tuple) and len(v) == 2, repr(v))
        k, dk = v
        h.shape("value shape", k, (N,))
        h.shape("derivative shape", dk, (N,))
        h.eq("value = (f-g)^2 (deriv)", el(k, i), spec(fi, gi))
        h.eq("derivative = -2(f-g)", el(dk, i), mul(num(-2), sub(fi, gi)))
    h.run("evaluate(deriv=True)", lambda: h.meth(h.call(S), "evaluate", f, g, deriv=True), post2)

    def again():
        o = h.call(S)
        h.inplace(lambda: h.meth(o, "evaluate", f, g, deriv=True), f, g)
        return h.meth(o, "evaluate", f, g), h.meth(o, "evaluate", f, g, deriv=True)
    h.run("arguments changed in place", again, lambda v: (post(v[0]), post2(v[1])))


GROUPS = [values]


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n, label=", integer " + " ".join(n)) for g in GROUPS[:] for n in (("f", "g"), ("f",), ("g",))]
