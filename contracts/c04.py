"""Normalised basis functions integrate to one over space; published update factors are a <r^2>."""
from contracts.c03 import Mol, BOUNDS
from vc.harness import integral as integers
from contracts.gauss import *

GROUPS = []
ASSUMPTIONS = ["Gaussian moments over three-dimensional space (Gamma function): integral exp(-a r^2) = (pi/a)^(3/2), "
               "integral r^2 exp(-a r^2) = 3/2 pi^(3/2)/a^(5/2), integral r^4 exp(-a r^2) = 15/4 pi^(3/2)/a^(7/2), for a > 0"]


def moment(m, a):
    """integral of r^m exp(-a r^2) over space, m = 0, 2, 4"""
    f = {0: frc(1), 2: frc(3, 2), 4: frc(15, 4)}[m]
    return div(mul(f, tm.pow_(PI, frc(3, 2))), tm.pow_(a, frc(3 + m, 2)))


POW = {"s": 0, "p": 2}
FAC = {"s": frc(3, 2), "p": frc(5, 2)}


def shape_of(part, a, r2):
    """r^m exp(-a r^2)"""
    e = tm.exp(tm.neg(mul(a, r2)))
    return e if part == "s" else mul(r2, e)


def parts(h, kind, j, ns):
    if kind == "s":
        return [("s", None)]
    if kind == "p":
        return [("p", None)]
    return [("s", tm.lt(j, ns)), ("p", tm.le(ns, j))]


def unit(kind, dims):
    @group("unit integral %s %dD" % (kind, dims), bounds=small(dims, kind))
    def g(h):
        s = Setup(h, kind, dims, True)
        j = h.index("j", s.M)
        h.it.ctx.select_hints.append(j)
        aj = el(s.a, j)
        h.reachable("inputs")
        for part, cond in parts(h, kind, j, s.ns):
            K = div(num(1.0), moment(POW[part], aj))      # the factor with which the integral is one
            h.eq("%s-type integral" % part, mul(K, moment(POW[part], aj)), num(1.0))

            def post(v, part=part, cond=cond, K=K):
                with h.under(cond if cond is not None else tm.TRUE):
                    if h.ctx.inconsistent():
                        return
                    h.eq("%s-type function is the unit-integral Gaussian" % part, el(v[1], s.i, j),
                         mul(K, shape_of(part, aj, s.r2())))
                h.eq("model is the coefficient-weighted sum of its functions", el(v[0], s.i),
                     tm.sum_(Z, s.M, lambda k: mul(el(s.c, k), el(v[1], s.i, k))))
            h.run("evaluate", lambda: h.meth(s.make(), "evaluate", s.c, s.a, deriv=True), post)
    GROUPS.append(g)


for kind in ("s", "p", "sp"):
    unit(kind, 2)
    unit(kind, 1)


def single(kind):
    @group("one function alone %s" % kind, bounds=[{"N": 2, "D": 3}])
    def g(h):
        N, D = h.size("N"), h.size("D")
        pts, cen = h.arr("x", (N, D)), h.arr("cen", (D,))
        a = h.arr("a", (ONE,))
        h.forall(ONE, lambda k: tm.lt(R0, el(a, k)))
        one = Arr(Buf(lambda ix: num(1.0), (ONE,), "f"))
        i = h.index("i", N)
        r2 = tm.sum_(Z, D, lambda d: tm.pow_(sub(el(pts, i, d), el(cen, d)), num(2)))

        def go():
            o = h.call(ATOM, pts, cen, num_s=1 if kind == "s" else 0, num_p=1 if kind == "p" else 0, normalize=True)
            return h.meth(o, "evaluate", one, a), h.attr(o, "prefactor")

        def post(v):
            K = div(num(1.0), moment(POW[kind], el(a, Z)))
            h.eq("coefficient one gives a unit-integral Gaussian", el(v[0], i), mul(K, shape_of(kind, el(a, Z), r2)))
            h.eq("factor = exponent times mean squared radius", el(v[1], Z),
                 mul(el(a, Z), K, moment(POW[kind] + 2, el(a, Z))))
        h.run("evaluate", go, post)
    GROUPS.append(g)


single("s")
single("p")


def factors(kind):
    @group("update factors %s" % kind, bounds=small(2, kind))
    def g(h):
        s = Setup(h, kind, 2, True)
        j = h.index("j", s.M)
        h.it.ctx.select_hints.append(j)
        aj = el(s.a, j)

        def post(v):
            h.shape("one factor per function", v, (s.M,))
            for part, cond in parts(h, kind, j, s.ns):
                with h.under(cond if cond is not None else tm.TRUE):
                    if h.ctx.inconsistent():
                        continue
                    h.eq("%s-type factor = exponent times mean squared radius" % part, el(v, j),
                         mul(aj, div(moment(POW[part] + 2, aj), moment(POW[part], aj))))
        h.run("prefactor", lambda: h.attr(s.make(), "prefactor"), post)

        def changed():
            o = s.make(ns=num(3), np_=num(4))
            h.attr(o, "prefactor")
            h.meth(o, "change_numb_s_and_numb_p", s.ns, s.np)
            return h.attr(o, "prefactor")
        h.run("prefactor after the counts changed", changed, post)
    GROUPS.append(g)


for kind in ("s", "p", "sp"):
    factors(kind)


@group("molecular functions and factors", bounds=BOUNDS)
def molecular(h):
    m = Mol(h, True)
    atomic_contract(h, True)
    q = h.index("q", m.A)
    j = h.index("j", m.nb(q))
    h.it.ctx.select_hints.append(q)
    pos = add(m.off(q), j)
    aj = el(m.a, pos)

    def go():
        o = m.make()
        return h.meth(o, "evaluate", m.c, m.a, deriv=True)[1], h.attr(o, "prefactor")

    def post(v):
        dv, pf = v
        h.shape("one factor per function", pf, (m.M,))
        for part, cond in (("s", tm.lt(j, m.b(q, 0))), ("p", tm.le(m.b(q, 0), j))):
            with h.under(cond):
                if h.ctx.inconsistent():
                    continue
                K = div(num(1.0), moment(POW[part], aj))
                h.eq("%s-type function about its centre has unit integral" % part, el(dv, m.i, pos),
                     mul(K, shape_of(part, aj, m.r2(q))))
                h.eq("%s-type factor = exponent times mean squared radius" % part, el(pf, pos),
                     mul(aj, K, moment(POW[part] + 2, aj)))
    h.run("evaluate", go, post)


GROUPS.append(molecular)


@group("fixed point of the exponent rule", bounds=[{}])
def fixed(h):
    # the update rule (C14) is a -> factor * I1 / I2 with I2 / I1 the weighted data's mean squared radius
    for part in ("s", "p"):
        a, I1, I2 = h.real("a"), h.real("I1"), h.real("I2")
        for t in (a, I1, I2):
            h.assume(tm.lt(R0, t))
        mean = div(moment(POW[part] + 2, a), moment(POW[part], a))
        new = div(mul(FAC[part], I1), I2)
        k = div(I2, mul(a, I1))
        h.eq("%s: difference of the means is a multiple of the change of the exponent" % part,
             sub(mean, div(I2, I1)), mul(k, sub(new, a)))
        h.lt("%s: the multiple is positive, so that one vanishes exactly when the other does" % part, R0, k)


GROUPS.append(fixed)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n.split(), label=", integer " + n) for g in GROUPS[:] for n in ('x cen',)]
