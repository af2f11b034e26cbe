"""Radial derivative of the density and kinetic energy density of a Slater atom."""
from contracts.atoms import *
from vc.harness import integral as integers

GROUPS = []
BD = [{"K": 1, "N": 1}, {"K": 2, "N": 2}]


def deriv(warm):
    @group("derivative of the density" + (" after other evaluations" if warm else ""), bounds=BD)
    def g(h):
        _deriv(h, warm)
    GROUPS.append(g)


def _deriv(h, warm):
    """With d/dr of every Slater function given by its own contract (C23), the result is the derivative of the total
    density by the sum, product and chain rules."""
    s = Atom(h)
    from vc.calculus import diff
    x = sym("x")
    dens = lambda f, g: div(tm.sum_(Z, s.K, lambda j: mul(el(s.occ, j, Z), f(j), g(j))), mul(num(4), PI))
    rho = dens(lambda j: s.phi(j, x), lambda j: s.phi(j, x))
    d = diff(rho, x, {"R": "dR"})

    def post(v):
        h.shape("one value per point", v, (s.N,))
        with h.under(tm.le(num(1e-10), s.x)):
            h.eq("derivative of the density", el(v, s.k), tm.subst(d, {x: s.x}))
    h.run("derivative", lambda: h.meth(s.make(warm), "derivative_density", s.r), post)

    def post2(v):
        h.eq("density", el(v, s.k), tm.subst(rho, {x: s.x}))
    h.run("density", lambda: h.meth(s.make(warm), "atomic_density", s.r), post2)


def kinetic(warm):
    @group("kinetic energy density" + (" after other evaluations" if warm else ""), bounds=BD)
    def g(h):
        _kinetic(h, warm)
    GROUPS.append(g)


def _kinetic(h, warm):
    s = Atom(h)
    x = s.x
    ll = lambda j: tm.ite(s.isang(j, "S"), num(0.0), tm.ite(s.isang(j, "P"), num(2.0), tm.ite(s.isang(j, "D"), num(6.0), num(12.0))))

    def spec(near):
        def t(j):
            if near:
                return R0
            return mul(el(s.occ, j, Z), div(add(tm.pow_(s.phi(j, x, "dR"), num(2)),
                                                div(mul(ll(j), tm.pow_(s.phi(j, x), num(2))), mul(x, x))), num(2.0)))
        return div(tm.sum_(Z, s.K, t), mul(num(4.0), PI))

    def post(v):
        h.shape("one value per point", v, (s.N,))
        with h.under(tm.le(num(1e-10), x)):
            h.eq("(R'^2 + l(l+1)R^2/r^2)/2 over 4 pi", el(v, s.k), spec(False))
            h.le("not negative", R0, el(v, s.k))
        with h.under(tm.lt(x, num(1e-10))):
            h.eq("no term at the nucleus", el(v, s.k), spec(True))
    h.run("kinetic energy", lambda: h.meth(s.make(warm), "positive_definite_kinetic_energy", s.r), post)


for _w in (False, True):
    deriv(_w)
    kinetic(_w)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, "r") for g in GROUPS[:]]
