"""Specification of the Gaussian models."""
from contracts.common import *
from vc.calculus import diff

ATOM = "bfit.model.AtomicGaussianDensity"
MOL = "bfit.model.MolecularGaussianDensity"


def frc(a, b=1):
    return tm.div(num(float(a)), num(float(b)))


def s_fun(a, r2, norm):
    v = tm.exp(tm.neg(mul(a, r2)))
    return mul(tm.pow_(div(a, PI), frc(3, 2)), v) if norm else v


def p_fun(a, r2, norm):
    v = mul(r2, tm.exp(tm.neg(mul(a, r2))))
    return mul(frc(2, 3), div(tm.pow_(a, frc(5, 2)), tm.pow_(PI, frc(3, 2))), v) if norm else v


def model_value(c, a, off, ns, np_, r2, norm):
    """sum of the functions off .. off+ns+np_ of the parameter arrays at squared distance r2."""
    s = tm.sum_(Z, ns, lambda k: mul(el(c, add(off, k)), s_fun(el(a, add(off, k)), r2, norm)))
    p = tm.sum_(Z, np_, lambda k: mul(el(c, add(off, ns, k)), p_fun(el(a, add(off, ns, k)), r2, norm)))
    return add(s, p)


class Setup:
    """Symbolic atomic model: kind in 's','p','sp'; dims 1 (radial) or 2 (points of any dimension)."""

    def __init__(self, h, kind, dims, norm, center=True, tag=""):
        self.h, self.norm, self.dims = h, norm, dims
        self.N = h.size("N")
        self.ns = h.size("ns") if "s" in kind else Z
        self.np = h.size("np") if "p" in kind else Z
        self.M = add(self.ns, self.np)
        if dims == 1:
            self.pts = h.arr("x", (self.N,))
            self.cen = h.arr("cen", (ONE,)) if center else None
        else:
            self.D = h.size("D")
            self.pts = h.arr("x", (self.N, self.D))
            self.cen = h.arr("cen", (self.D,)) if center else None
        self.c, self.a = h.arr("c", (self.M,)), h.arr("a", (self.M,))
        if norm:
            h.forall(self.M, lambda k: tm.lt(num(0.0), el(self.a, k)))
        self.i = h.index("i", self.N)

    def r2(self, i=None):
        i = self.i if i is None else i
        if self.dims == 1:
            d = el(self.pts, i)
            if self.cen is not None:
                d = sub(d, el(self.cen, Z))
            return mul(d, d)

        def sq(k):
            d = el(self.pts, i, k)
            if self.cen is not None:
                d = sub(d, el(self.cen, k))
            return mul(d, d)
        return tm.sum_(Z, self.D, sq)

    def make(self, ns=None, np_=None):
        h = self.h
        kw = dict(num_s=self.ns if ns is None else ns, num_p=self.np if np_ is None else np_,
                  normalize=self.norm)
        return h.call(ATOM, self.pts, self.cen, **kw)

    def value(self):
        return model_value(self.c, self.a, Z, self.ns, self.np, self.r2(), self.norm)


def small(dims, kind):
    out = []
    for ns, np_ in ((1, 1), (2, 1), (1, 3), (3, 2)):
        d = {"N": 2, "ns": ns, "np": np_}
        if dims == 2:
            d["D"] = 3
        if d not in out and (kind == "sp" or True):
            out.append(d)
    return out[:3] if kind == "sp" else [out[0], out[3]]


# ------------------------------------------------------------------ contract of the atomic model (proved in C01/C02)
def dfun(part, x, y, r2, norm):
    """(d/dcoefficient, d/dexponent) of one term."""
    cc, aa = sym("cc"), sym("aa")
    t = mul(cc, (s_fun if part == "s" else p_fun)(aa, r2, norm))
    at = {cc: x, aa: y}
    return tm.subst(diff(t, cc), at), tm.subst(diff(t, aa), at)


def atom_columns(c, a, ns, np_, r2, norm):
    """Element function of the derivative matrix (k -> term)."""
    M = add(ns, np_)

    def col(k):
        second = tm.le(M, k)
        kk = tm.ite(second, sub(k, M), k)
        x, y = el(c, kk), el(a, kk)
        ds, dp = dfun("s", x, y, r2, norm), dfun("p", x, y, r2, norm)
        iss = tm.lt(kk, ns)
        return tm.ite(second, tm.ite(iss, ds[1], dp[1]), tm.ite(iss, ds[0], dp[0]))
    return col


def atomic_contract(h, norm):
    """Replace AtomicGaussianDensity.evaluate by its contract (C01, C02)."""
    def evaluate(it, args, kw):
        names = ["self", "coeffs", "expons", "deriv"]
        d = dict(zip(names, args))
        d.update(kw)
        o, c, a = d["self"], d["coeffs"], d["expons"]
        deriv = d.get("deriv", False)
        ns, np_ = tv(it.getattr(o, "num_s")), tv(it.getattr(o, "num_p"))
        rad = it.getattr(o, "radii")
        M = add(ns, np_)
        for nm, z in (("coefficients", c), ("exponents", a)):
            if not isinstance(z, Arr) or z.ndim != 1:
                raise ObligationFailed("atomic model is called with %s that are not a vector" % nm)
            h.holds("atomic model precondition: number of %s" % nm, tm.eq(z.shape[0], M))
        cs, as_, rs = Arr(Buf(c.snap(), c.shape, "f")), Arr(Buf(a.snap(), a.shape, "f")), rad.snap()
        r2 = lambda i: tm.pow_(rs((i,)), num(2))
        val = Arr(Buf(lambda ix: model_value(cs, as_, Z, ns, np_, r2(ix[0]), norm), rad.shape, "f"))
        it.used_models.add("contract AtomicGaussianDensity.evaluate (C01, C02)")
        if not it.truthy(deriv):
            return val
        dv = Arr(Buf(lambda ix: atom_columns(cs, as_, ns, np_, r2(ix[0]), norm)(ix[1]),
                     (rad.shape[0], mul(num(2), M)), "f"))
        return (val, dv)
    h.it.contracts[("bfit.model", "AtomicGaussianDensity.evaluate")] = evaluate
