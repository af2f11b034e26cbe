"""Total, core and valence density of a Slater atom with any numbers of orbitals and basis functions."""
from contracts.atoms import *
from vc.harness import integral as integers

GROUPS = []
BD = [{"K": 1, "N": 1}, {"K": 2, "N": 2}, {"K": 3, "N": 1}]


def orbitals(warm):
    @group("orbitals" + (" after other evaluations" if warm else ""), bounds=BD)
    def g(h):
        _orbitals(h, warm)
    GROUPS.append(g)


def _orbitals(h, warm):
    s = Atom(h)

    def post(v):
        h.shape("one row per point, one column per orbital", v, (s.N, s.K))
        h.eq("column j is the j-th listed orbital", el(v, s.k, s.j), s.phi(s.j, s.x))
    h.run("phi_matrix", lambda: h.meth(s.make(warm), "phi_matrix", s.r), post)

    def post2(v):
        h.shape("one row per point, one column per orbital", v, (s.N, s.K))
        with h.under(tm.le(num(1e-10), s.x)):
            h.eq("derivative of the j-th listed orbital", el(v, s.k, s.j), s.phi(s.j, s.x, "dR"))
    h.run("derivative", lambda: h.meth(s.make(warm), "phi_matrix", s.r, deriv=True), post2)


for _w in (False, True):
    orbitals(_w)


def dens(mode, warm=False):
    @group("density " + mode + (" after other evaluations" if warm else ""), bounds=BD)
    def g(h):
        s = Atom(h)
        homo = tm.max_(Z, s.K, lambda j: el(s.en, j, Z))
        wt = lambda j: tm.exp(tm.neg(tm.pow_(sub(el(s.en, j, Z), homo), num(2))))
        W = {"total": lambda j: num(1.0), "valence": wt, "core": lambda j: sub(num(1.0), wt(j))}

        def spec(mode):
            return div(tm.sum_(Z, s.K, lambda j: mul(el(s.occ, j, Z), W[mode](j), tm.pow_(s.phi(j, s.x), num(2)))), mul(num(4), PI))
        fn = lambda: h.meth(s.make(warm), "atomic_density", s.r, mode)

        def post(v):
            h.shape("one value per point", v, (s.N,))
            h.eq(mode + " density", el(v, s.k), spec(mode))
        h.run(mode, fn, post)
        if warm:
            return
        # every term of the sum is non-negative, hence the density
        o = mul(el(s.occ, s.j, Z), W[mode](s.j), tm.pow_(s.phi(s.j, s.x), num(2)))
        h.le("no term is negative", R0, o)

        def post2(v):
            h.le("not negative", R0, el(v, s.k))
        h.run("sign", fn, post2)
        if mode == "total":
            h.run("default mode", lambda: h.meth(s.make(), "atomic_density", s.r), post)

            def post3(v):
                t, c, u = v
                h.eq("core + valence = total", add(el(c, s.k), el(u, s.k)), el(t, s.k))

            def three():
                o = s.make()
                return tuple(h.meth(o, "atomic_density", s.r, m) for m in ("total", "core", "valence"))
            h.run("three modes on one object", three, post3)
    GROUPS.append(g)


for _m in ("total", "valence", "core"):
    dens(_m)
    dens(_m, True)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, "r") for g in GROUPS[:]]
