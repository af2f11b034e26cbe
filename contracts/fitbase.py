"""Specification of fitting problems: any grid (weighted sum), any model (contract of evaluate)."""
from contracts.common import *

ATOM = "bfit.model.AtomicGaussianDensity"
MOL = "bfit.model.MolecularGaussianDensity"
FPI, SCI = "bfit.fit.KLDivergenceFPI", "bfit.fit.ScipyFit"
ZR = num(0.0)


class Fit:
    """N grid points of dimension `dims`, weights w, density f >= 0, a model with M functions."""

    def __init__(self, h, dims=1, mol=False, spherical=False, positive=True):
        self.h, self.dims, self.mol, self.spherical = h, dims, mol, spherical
        self.N = h.size("N")
        self.w, self.f = h.arr("w", (self.N,)), h.arr("f", (self.N,))
        h.forall(self.N, lambda k: tm.le(ZR, el(self.f, k)))
        self.M = h.size("M")
        self.tags = []
        self.mask = h.real("mask", nonneg=True)
        self.x = h.arr("x", (self.N,)) if dims == 1 else h.arr("x", (self.N, num(3)))
        self.i = h.index("i", self.N)
        self.grid = None

    def I(self, fn):
        """The integral of k -> fn(k)."""
        if self.spherical:
            return tm.sum_(Z, self.N, lambda k: mul(el(self.w, k), fn(k), num(4.0), PI, tm.pow_(el(self.x, k), num(2.0))))
        return tm.sum_(Z, self.N, lambda k: mul(el(self.w, k), fn(k)))

    def make_grid(self):
        return self.h.call("stubs.anygrid.AnyGrid", self.x, self.w)

    # ------------------------------------------------------------------ model contract
    def make_model(self):
        h = self.h
        if self.mol:
            self.A = ONE if self.mol == "one" else h.size("A", 2)
            self.bas = h.arr("b", (self.A, num(2)), "i") if h.sizes is None else table(h.sizes["basis"])
            h.forall(self.A, lambda k: tm.and_(tm.le(Z, self.b(k, 0)), tm.le(Z, self.b(k, 1)), tm.lt(Z, self.nb(k))))
            self.X = h.arr("X", (self.A, num(3)))
            self.M = self.off(self.A)
            self.install()
            return h.call(MOL, self.x, self.X, self.bas, normalize=True)
        self.ns, self.np_ = h.size("ns", 0), h.size("np", 0)
        h.assume(tm.lt(Z, add(self.ns, self.np_)))
        self.M = add(self.ns, self.np_)
        self.cen = h.arr("cen", (ONE if self.dims == 1 else num(3),))
        self.install()
        return h.call(ATOM, self.x, self.cen, num_s=self.ns, num_p=self.np_, normalize=True)

    def b(self, k, j):
        return el(self.bas, k, num(j))

    def nb(self, k):
        return add(self.b(k, 0), self.b(k, 1))

    def off(self, k):
        return tm.sum_(Z, k, self.nb)

    def register(self, tag, c, e):
        """Parameter vectors the specification talks about."""
        self.tags.append((tag, c, e))

    def g(self, tag, k):
        return app("g!" + tag, k)

    def db(self, tag, k, j):
        """d model(k) / d parameter j (coefficients first)."""
        return app("db!" + tag, k, j)

    def find(self, c, e):
        h = self.h
        for nm, z in (("coefficients", c), ("exponents", e)):
            if not isinstance(z, Arr) or z.ndim != 1:
                raise ObligationFailed("model is evaluated with %s that are not a vector: %r" % (nm, z))
            h.holds("model precondition: number of %s" % nm, tm.eq(z.shape[0], self.M))
        j = tm.fresh("j", I)
        h.ctx.push()
        try:
            h.ctx.assume(tm.le(Z, j))
            h.ctx.assume(tm.lt(j, self.M))
            for tag, tc, te in self.tags:
                if h.ctx.prove_eq(el(c, j), tc(j)) and h.ctx.prove_eq(el(e, j), te(j)):
                    return tag
        finally:
            h.ctx.pop()
        tag = "other%d" % len(self.tags)
        cs, es = c.snap(), e.snap()
        self.tags.append((tag, lambda j: cs((j,)), lambda j: es((j,))))
        return tag

    def install(self):
        h = self.h
        for cls, mod in (("AtomicGaussianDensity", "bfit.model"), ("MolecularGaussianDensity", "bfit.model")):
            h.it.contracts[(mod, cls + ".evaluate")] = self.evaluate
        if self.mol:
            h.it.contracts[("bfit.model", "MolecularGaussianDensity.assign_basis_to_center")] = self.centre

    def evaluate(self, it, args, kw):
        d = dict(zip(["self", "coeffs", "expons", "deriv"], args))
        d.update(kw)
        tag = self.find(d["coeffs"], d["expons"])
        self.last = tag
        it.used_models.add("contract of model.evaluate (C01-C03)")
        val = Arr(Buf(lambda ix: self.g(tag, ix[0]), (self.N,), "f"))
        if not it.truthy(d.get("deriv", False)):
            return val
        return (val, Arr(Buf(lambda ix: self.db(tag, ix[0], ix[1]), (self.N, mul(num(2), self.M)), "f")))

    def cof(self, j):
        return tm.mk("app", ("centre", tm.lift(j)), I)

    def owner(self, j, q):
        """Contract of the look-up (C03): function j belongs to centre q, where j lies in the block of q."""
        def rule(ctx, t):
            if t.args[0] == "centre" and (t.args[1] is j or ctx.is_zero(sub(t.args[1], j))):
                return ctx.canon(q)
        self.h.ctx.rules.append(rule)

    def centre(self, it, args, kw):
        j = tv(args[1])
        q = self.cof(j)
        self.h.holds("look-up precondition", tm.and_(tm.le(Z, j), tm.lt(j, self.M)))
        it.used_models.add("contract of assign_basis_to_center (C03)")
        it.assume(tm.and_(tm.le(Z, q), tm.lt(q, self.A)))
        return Num(q)

    def r2(self, k, j):
        """Squared distance of point k to the centre of function j."""
        if self.mol:
            q = self.cof(j)
            return tm.sum_(Z, num(3), lambda d: tm.pow_(sub(el(self.x, k, d), el(self.X, q, d)), num(2)))
        if self.dims == 1:
            return tm.pow_(sub(el(self.x, k), el(self.cen, Z)), num(2))
        return tm.sum_(Z, num(3), lambda d: tm.pow_(sub(el(self.x, k, d), el(self.cen, d)), num(2)))

    def params(self, c="c", e="e", tag="0", pos=False):
        h = self.h
        ca, ea = h.arr(c, (self.M,)), h.arr(e, (self.M,))
        if pos:
            h.forall(self.M, lambda k: tm.and_(tm.lt(ZR, el(ca, k)), tm.lt(ZR, el(ea, k))))
        self.register(tag, lambda j: el(ca, j), lambda j: el(ea, j))
        return ca, ea

    def model_nonneg(self, tag="0", above=None):
        self.h.forall(self.N, lambda k: tm.le(ZR, self.g(tag, k)) if above is None else tm.lt(above, self.g(tag, k)))


def table(rows):
    def cnt(ix):
        e = num(0)
        for i, row in enumerate(rows):
            for j, v in enumerate(row):
                e = tm.ite(tm.and_(tm.eq(ix[0], num(i)), tm.eq(ix[1], num(j))), num(v), e)
        return e
    return Arr(Buf(cnt, (num(len(rows)), num(2)), "i", "b"))
