"""The fixed-point step is a majorisation step.  The real code's divergences before and after and its new coefficients
are put into closed form (any grid, any model satisfying the contract of evaluate), and the inequality is derived from
them by Jensen's inequality, itself derived from  ln x <= x - 1."""
from contracts.fitbase import *
from vc.harness import integral as integers
from contracts import gauss as ga
from contracts.c03 import Mol, BOUNDS as MB

GROUPS = []
O = num(1.0)
ASSUMPTIONS = ["axiom: ln x <= x - 1 for x > 0, equality only at x = 1"]
BD = [{"N": 2, "ns": 1, "np": 1}, {"N": 3, "ns": 2, "np": 0}]


def code(dims, mol, spherical):
    @group("divergence before and after the real step: %s%s" % ("molecule" if mol else "%dD atom" % dims, " spherical" if spherical else ""),
           bounds=BD if not mol else [{"N": 2, "A": 2, "basis": [[1, 0], [1, 1]]}])
    def g(h):
        s = Fit(h, dims, mol, spherical)
        s.model = s.make_model()
        h.assume(tm.not_(tm.eq(s.I(lambda k: el(s.f, k)), ZR)))
        T = h.real("T", pos=True)
        h.forall(s.N, lambda k: tm.lt(ZR, el(s.f, k)))
        c, e = s.params()
        h.forall(s.N, lambda k: tm.lt(s.mask, s.g("0", k)))
        L = div(s.I(lambda k: el(s.f, k)), T)
        a1 = lambda j: s.I(lambda k: mul(div(el(s.f, k), s.g("0", k)), s.db("0", k, j)))
        cn = lambda j: div(mul(el(c, j), a1(j)), L)
        s.register("1", cn, lambda j: el(e, j))
        h.forall(s.N, lambda k: tm.lt(s.mask, s.g("1", k)))
        j = h.index("j", s.M)

        def go():
            o = h.call(FPI, s.make_grid(), s.f, s.model, mask_value=s.mask, spherical=spherical, integral_dens=T)
            before = h.it.getitem(h.meth(o, "goodness_of_fit", c, e), -1)
            new = h.it.concrete_items(h.meth(o, "_update_params", c, e, True, False))
            after = h.it.getitem(h.meth(o, "goodness_of_fit", new[0], new[1]), -1)
            return before, new[0], new[1], after

        def post(v):
            kl = lambda tag: s.I(lambda k: mul(el(s.f, k), tm.log(div(el(s.f, k), s.g(tag, k)))))
            h.eq("divergence before", v[0], kl("0"))
            h.eq("new coefficient", el(v[1], j), cn(j))
            h.eq("exponents unchanged", el(v[2], j), el(e, j))
            h.eq("divergence after", v[3], kl("1"))
        h.run("step", go, post)
    GROUPS.append(g)


code(1, False, True)
code(3, False, False)
code(3, "many", False)


@group("real models: coefficient columns do not depend on the coefficients",
       bounds=[{"N": 2, "D": 3, "ns": 2, "np": 1}])
def linear(h):
    for kind in ("s", "p", "sp"):
        s = ga.Setup(h, kind, 2, True)
        c2 = h.arr("c2", (s.M,))
        j = h.index("j" + kind, s.M)

        def post(v):
            h.eq("column", el(v[0][1], s.i, j), el(v[1][1], s.i, j))
            h.eq("value of the second is linear in its coefficients", el(v[1][0], s.i),
                 tm.sum_(Z, s.M, lambda k: mul(el(c2, k), el(v[0][1], s.i, k))))
        h.run("evaluate twice", lambda: (lambda o: (h.meth(o, "evaluate", s.c, s.a, deriv=True),
                                                    h.meth(o, "evaluate", c2, s.a, deriv=True)))(s.make()), post)


GROUPS.append(linear)


@group("real molecular model: coefficient columns do not depend on the coefficients", bounds=MB)
def linear_mol(h):
    m = Mol(h, True)
    ga.atomic_contract(h, True)
    q = h.index("q", m.A)
    h.it.ctx.select_hints.append(q)
    j = h.index("j", m.nb(q))
    c2 = h.arr("c2", (m.M,))
    pos = add(m.off(q), j)
    h.run("evaluate twice", lambda: (lambda o: (h.meth(o, "evaluate", m.c, m.a, deriv=True),
                                                h.meth(o, "evaluate", c2, m.a, deriv=True)))(m.make()),
          lambda v: h.eq("column", el(v[0][1], m.i, pos), el(v[1][1], m.i, pos)))


GROUPS.append(linear_mol)


@group("Jensen's inequality at a point")
def jensen(h):
    """g' = sum c_i' b_i, g = sum c_i b_i, x_i = c_i'/c_i:  ln(g'/g) >= sum (c_i b_i/g) ln x_i."""
    M = h.size("M")
    c, b, x = h.arr("c", (M,)), h.arr("b", (M,)), h.arr("x", (M,))
    g = tm.sum_(Z, M, lambda i: mul(el(c, i), el(b, i)))
    g1 = tm.sum_(Z, M, lambda i: mul(el(c, i), el(x, i), el(b, i)))
    h.assume(tm.lt(ZR, g))
    h.assume(tm.lt(ZR, g1))
    y = div(g1, g)
    lny = sym("lny")
    i = h.index("i", M)
    ci, bi, xi = el(c, i), el(b, i), el(x, i)
    h.assume(tm.lt(ZR, ci))
    h.assume(tm.le(ZR, bi))
    h.assume(tm.lt(ZR, xi))
    h.lt("ratio positive", ZR, div(h.real("u", pos=True), h.real("v", pos=True)))
    # axiom at x_i / y, multiplied by the weight t_i = c_i b_i / g
    t = h.real("t", nonneg=True)
    yy, lx = h.real("yy", pos=True), h.real("lx")
    with h.under(tm.le(sub(lx, lny), sub(div(xi, yy), O))):
        h.le("weighted axiom", mul(t, lx), mul(t, sub(add(lny, div(xi, yy)), O)))
    h.eq("the weighted bounds add up to ln(g'/g)",
         tm.sum_(Z, M, lambda i: mul(div(mul(el(c, i), el(b, i)), g), sub(add(lny, div(el(x, i), y)), O))), lny)


GROUPS.append(jensen)


@group("the step does not increase the divergence")
def conclude(h):
    N, M = h.size("N"), h.size("M")
    W, f, g0, g1 = (h.arr(n, (N,)) for n in ("W", "f", "g0", "g1"))
    c, x = h.arr("c", (M,)), h.arr("x", (M,))
    h.forall(N, lambda k: tm.and_(tm.lt(ZR, el(f, k)), tm.lt(ZR, el(g0, k)), tm.lt(ZR, el(g1, k))))
    h.forall(M, lambda k: tm.and_(tm.lt(ZR, el(c, k)), tm.lt(ZR, el(x, k))))
    b = lambda k, i: app("b", k, i)
    L, T = h.real("L", pos=True), h.real("T", pos=True)
    a1 = lambda i: tm.sum_(Z, N, lambda k: mul(el(W, k), div(el(f, k), el(g0, k)), b(k, i)))
    D = lambda g: tm.sum_(Z, N, lambda k: mul(el(W, k), el(f, k), tm.log(div(el(f, k), el(g, k)))))
    h.eq("change of the divergence", sub(D(g0), D(g1)),
         tm.sum_(Z, N, lambda k: mul(el(W, k), el(f, k), sub(tm.log(el(g1, k)), tm.log(el(g0, k))))))
    # Jensen at every point, summed with the weights W f >= 0, and the sums exchanged (a1_i = L x_i)
    h.eq("lower bound after exchanging sums",
         tm.sum_(Z, N, lambda k: mul(el(W, k), el(f, k), tm.sum_(Z, M, lambda i: mul(
             div(mul(el(c, i), b(k, i)), el(g0, k)), tm.log(el(x, i)))))),
         tm.sum_(Z, M, lambda i: mul(el(c, i), a1(i), tm.log(el(x, i)))))
    i = h.index("i", M)
    ci, xi, lx = h.real("ci", pos=True), h.real("xi", pos=True), h.real("lx")
    # axiom ln(1/x) <= 1/x - 1, multiplied by c_i' = c_i x_i
    ax = tm.le(sub(O, div(O, xi)), lx)
    with h.under(ax):
        h.le("c' ln(c'/c) >= c' - c", sub(mul(ci, xi), ci), mul(ci, xi, lx))
    with h.under(ax, tm.implies(tm.eq(lx, sub(O, div(O, xi))), tm.eq(xi, O)), tm.eq(mul(ci, xi, lx), sub(mul(ci, xi), ci))):
        h.eq("equality only if the coefficient did not change", mul(ci, xi), ci)
    h.eq("the bounds add up to the change of the total charge",
         tm.sum_(Z, M, lambda i: sub(mul(el(c, i), el(x, i)), el(c, i))),
         sub(tm.sum_(Z, M, lambda i: mul(el(c, i), el(x, i))), tm.sum_(Z, M, lambda i: el(c, i))))
    s0, s1 = h.real("s0"), h.real("s1")
    drop, low = h.real("drop"), h.real("low")
    with h.under(tm.eq(s0, T), tm.eq(s1, T), tm.le(mul(L, low), drop), tm.le(sub(s1, s0), low)):
        h.le("divergence does not increase", ZR, drop)
    # strictness: low > s1 - s0 as soon as one coefficient changed
    with h.under(tm.eq(s0, T), tm.eq(s1, T), tm.le(mul(L, low), drop), tm.lt(sub(s1, s0), low)):
        h.lt("and decreases if a coefficient changed", ZR, drop)


GROUPS.append(conclude)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n.split(), label=", integer " + n) for g in GROUPS[:] for n in ('f', 'c e')]
