"""A Slater atom with any number of orbitals and basis functions (data delivered by the loader's contract)."""
from contracts.common import *

D = "bfit.density."
ANG = ("S", "P", "D", "F")


class Atom:
    def __init__(self, h, r_lo=None):
        self.h = h
        self.K, self.N = h.size("K"), h.size("N")
        self.r = h.arr("r", (self.N,))
        h.forall(self.N, lambda k: tm.le(R0, el(self.r, k)))
        K = self.K
        self.lab = lambda j: app("lab", j, sort=U)
        self.ang = lambda j: tm.mk("app", ("char1", self.lab(j)), U)
        nf = lambda a: app("nfun", a, sort=I)
        self.nf = lambda j: nf(self.ang(j))
        sc = lambda s: tm.mk("app", ('"%s"' % s,), U)
        one_of = lambda j: tm.or_(*[tm.eq(self.ang(j), sc(s)) for s in ANG])
        if h.sizes is None:
            h.forall(K, one_of)
            h.forall(K, lambda j: tm.le(ONE, self.nf(j)))
        else:
            for j in range(int(tm.val(K))):
                h.assume(one_of(num(j)))
                h.assume(tm.le(ONE, self.nf(num(j))))
        self.isang = lambda j, s: tm.eq(self.ang(j), sc(s))
        self.occ, self.en = h.arr("occ", (K, ONE), "i"), h.arr("en", (K, ONE))
        h.forall(K, lambda j: tm.le(Z, el(self.occ, j, Z)))
        fr = lambda a: (setattr(a.buf, "frozen", True), a)[1]

        def key(k):
            if isinstance(k, SymStr):
                return k.t
            if isinstance(k, str):
                return sc(k)
            raise Unsupported("key %r" % (k,))

        def look(name, dtype, by):
            def fn(it, k):
                t = key(k)
                n = nf(t) if by == "ang" else nf(tm.mk("app", ("char1", t), U))
                sort = {"f": R, "i": I}[dtype]
                return fr(Arr(Buf(lambda ix: app(name, t, ix[0], sort=sort), (n, ONE), dtype, name)))
            d = PDict(fn=fn)
            d.frozen = True
            return d
        self.labels = PList(head=(K, lambda j: SymStr(self.lab(j))))
        self.labels.frozen = True

        def load(it, args, kw):
            return PDict({"orbitals": self.labels, "orbitals_occupation": self.occ, "orbitals_energy": self.en,
                          "orbitals_exp": look("ex", "f", "ang"), "basis_numbers": look("nb", "i", "ang"),
                          "orbitals_coeff": look("cf", "f", "lab"),
                          "energy": Num(sym("E")), "potential_energy": Num(sym("V")), "kinetic_energy": Num(sym("T")),
                          "configuration": SymStr(app("conf", sort=U)), "orbitals_basis": PDict(), "orbitals_cusp": PList()})
        h.it.contracts[("bfit._slater", "load_slater_wfn")] = load
        for nm, f in (("radial_slater_orbital", "R"), ("derivative_radial_slater_type_orbital", "dR")):
            h.it.contracts[("bfit.density", "SlaterAtoms." + nm)] = self.sto(f)
        self.k = h.index("k", self.N)
        self.j = h.index("j", self.K)
        h.reachable("inputs")

    def sto(self, f):
        def fn(it, args, kw):
            args = [a for a in args if not isinstance(a, PObj)]
            a = dict(zip(("exponent", "number", "points"), args))
            a.update(kw)
            e, n, p = a["exponent"], a["number"], a["points"]
            if e.ndim != 2 or n.ndim != 2 or p.ndim != 1:
                raise ObligationFailed("Slater functions asked for with exponents, numbers, points of dimension %d, %d, %d" % (
                    e.ndim, n.ndim, p.ndim))
            self.h.holds("as many exponents as quantum numbers", tm.eq(e.shape[0], n.shape[0]))

            def at(ix):
                x = p.get((ix[0],))
                t = app(f, e.get((ix[1], Z)), n.get((ix[1], Z)), x)
                return tm.ite(tm.lt(tm.abs_(x), num(1e-10)), R0, t) if f == "dR" else t
            return Arr(Buf(at, (p.shape[0], e.shape[0]), "f"))
        return fn

    def phi(self, j, x, f="R"):
        a = self.ang(j)
        return tm.sum_(Z, self.nf(j), lambda m: mul(app("cf", self.lab(j), m),
                                                    app(f, app("ex", a, m), app("nb", a, m, sort=I), x)))

    def make(self, warm=False):
        """warm: the object has answered every kind of question about other radii (as many of them) before."""
        o = self.h.call(D + "SlaterAtoms", "be")
        if warm:
            h = self.h
            if not hasattr(self, "r0"):
                self.r0 = h.arr("r0", (self.N,))
                h.forall(self.N, lambda k: tm.le(R0, el(self.r0, k)))
            h.meth(o, "phi_matrix", self.r0)
            h.meth(o, "phi_matrix", self.r0, deriv=True)
            for m in ("core", "valence", "total"):
                h.meth(o, "atomic_density", self.r0, m)
            h.meth(o, "derivative_density", self.r0)
            h.meth(o, "positive_definite_kinetic_energy", self.r0)
        return o

    @property
    def x(self):
        return el(self.r, self.k)
