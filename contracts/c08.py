"""Gibbs' inequality.

Pointwise facts are proved about what the real measures return, with three instances of the
elementary inequalities (assumed, standard):  ln x >= 1 - 1/x with equality only at x = 1, and
(x^s - 1)/s >= ln x for s > 0 (i.e. e^y >= 1 + y).  The integrals follow from linearity of a sum with
non-negative weights (C10, C11)."""
from contracts.common import *
from vc.harness import integral as integers

ZR, O = num(0.0), num(1.0)
ASSUMPTIONS = ["axiom: ln x >= 1 - 1/x for x > 0, equality only at x = 1",
               "axiom: (x^s - 1)/s >= ln x for x > 0, s > 0"]


def data(h):
    N = h.size("N")
    f, g = h.arr("f", (N,)), h.arr("g", (N,))
    mask = h.real("mask", nonneg=True)
    h.forall(N, lambda k: tm.le(ZR, el(f, k)))
    h.forall(N, lambda k: tm.lt(mask, el(g, k)))
    return N, f, g, mask


def log_axiom(h, x):
    h.assume(tm.implies(tm.lt(ZR, x), tm.le(sub(O, div(O, x)), tm.log(x))))
    h.assume(tm.implies(tm.and_(tm.lt(ZR, x), tm.eq(tm.log(x), sub(O, div(O, x)))), tm.eq(x, O)))


@group(bounds=[{"N": 1}, {"N": 3}])
def kl(h):
    N, f, g, mask = data(h)
    i = h.index("i", N)
    fi, gi = el(f, i), el(g, i)
    h.assume(tm.lt(mask, gi))
    h.assume(tm.le(ZR, fi))
    h.reachable("model above the mask")
    L = sym("logratio")

    def post(v):
        x = el(v, i)
        with h.under(tm.lt(ZR, fi)):
            h.eq("integrand is f ln(f/g)", x, mul(fi, tm.log(div(fi, gi))))
            h.lt("ratio positive", ZR, div(fi, gi))
            # the axiom at x = f/g, multiplied by f (see the last obligations of this group)
            fl = h.ctx.canon(mul(fi, tm.log(div(fi, gi))))
            with h.under(tm.le(sub(fi, gi), fl), tm.implies(tm.eq(fl, sub(fi, gi)), tm.eq(fi, gi))):
                h.le("integrand >= f - g", sub(fi, gi), x)
                with h.under(tm.eq(h.ctx.canon(x), sub(fi, gi))):
                    h.holds("equal only where f = g", tm.eq(fi, gi))
        with h.under(tm.eq(fi, ZR)):
            h.eq("integrand 0 where f = 0", x, ZR)
            h.le("integrand >= f - g (f = 0)", sub(fi, gi), x)
            h.holds("strict (f = 0)", tm.lt(sub(fi, gi), x))
    h.run("KLDivergence.evaluate", lambda: h.meth(h.call("bfit.measure.KLDivergence", mask_value=mask),
                                                 "evaluate", f, g), post)
    # the two facts assumed about f*L above are the axiom multiplied by f: with x = f/g
    a, b, l = h.real("a", pos=True), h.real("b", pos=True), h.real("l")
    with h.under(tm.le(sub(O, div(b, a)), l), tm.implies(tm.eq(l, sub(O, div(b, a))), tm.eq(div(a, b), O))):
        h.holds("axiom scaled: a l >= a - b", tm.le(sub(a, b), mul(a, l)))
        with h.under(tm.eq(mul(a, l), sub(a, b))):
            h.holds("axiom scaled: equality", tm.eq(a, b))


@group(bounds=[{"N": 1}, {"N": 3}])
def squared(h):
    N = h.size("N")
    f, g = h.arr("f", (N,)), h.arr("g", (N,))
    i = h.index("i", N)

    def post(v):
        h.le("squared difference >= 0", ZR, el(v, i))
        with h.under(tm.eq(el(v, i), ZR)):
            h.eq("zero only at equality", el(f, i), el(g, i))
    h.run("SquaredDifference.evaluate",
          lambda: h.meth(h.call("bfit.measure.SquaredDifference"), "evaluate", f, g), post)


@group(bounds=[{"N": 1}, {"N": 3}])
def tsallis_bounds_kl(h):
    N, f, g, mask = data(h)
    i = h.index("i", N)
    al = h.real("alpha")
    h.assume(tm.le(add(O, num(1e-10)), al))
    fi, gi = el(f, i), el(g, i)
    h.assume(tm.lt(mask, gi))
    h.assume(tm.le(ZR, fi))

    def post(v):
        t, k = v
        ti, ki = el(t, i), el(k, i)
        with h.under(tm.lt(ZR, fi)):
            s = sub(al, O)
            p = tm.pow_(div(fi, gi), s)
            l = tm.log(div(fi, gi))
            h.eq("Tsallis = f (p - 1)/s", ti, div(mul(fi, sub(p, O)), s))
            h.eq("KL = f l", ki, mul(fi, l))
            # axiom (p - 1)/s >= l for p = x^s, l = ln x, scaled by f > 0
            with h.under(tm.le(h.ctx.canon(mul(fi, l)), h.ctx.canon(div(mul(fi, sub(p, O)), s)))):
                h.le("Tsallis >= KL", ki, ti)
        with h.under(tm.eq(fi, ZR)):
            h.eq("both vanish where f = 0", ti, ki)
    h.run("Tsallis and KL", lambda: (
        h.meth(h.call("bfit.measure.TsallisDivergence", al, mask_value=mask), "evaluate", f, g),
        h.meth(h.call("bfit.measure.KLDivergence", mask_value=mask), "evaluate", f, g)), post)


@group()
def integrals(h):
    """Lemma: pointwise bound + non-negative weights give the integral bound."""
    n = h.size("n")
    w, d, e = h.arr("w", (n,)), h.arr("d", (n,)), h.arr("e", (n,))
    # induction over the partial sums S(k) of w (d - e) >= 0
    S = lambda k: tm.sum_(Z, k, lambda j: mul(el(w, j), sub(el(d, j), el(e, j))))
    k = h.index("k", n)
    h.assume(tm.le(ZR, el(w, k)))
    h.assume(tm.le(el(e, k), el(d, k)))
    s = sym("Sk")
    h.holds("base", tm.le(ZR, S(Z)))
    with h.under(tm.le(ZR, s)):
        h.holds("step", tm.le(ZR, add(s, mul(el(w, k), sub(el(d, k), el(e, k))))))
    h.eq("sum is linear", S(n), sub(tm.sum_(Z, n, lambda j: mul(el(w, j), el(d, j))),
                                    tm.sum_(Z, n, lambda j: mul(el(w, j), el(e, j)))))


GROUPS = [kl, squared, tsallis_bounds_kl, integrals]


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n.split(), label=", integer " + n) for g in GROUPS[:] for n in ('f g', 'w')]
