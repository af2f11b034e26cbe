"""Slater-type radial functions: value, exact derivative, norm."""
from contracts.common import *
from vc.harness import integral as integers
from vc.calculus import diff

GROUPS = []
ASSUMPTIONS = ["integral over r > 0 of r^(2n) exp(-2 a r) is (2n)!/(2a)^(2n+1) (Gamma function)"]
BD = [{"M": 1, "N": 2}, {"M": 2, "N": 2}]
S = "bfit.density.SlaterAtoms."


class Sto:
    def __init__(self, h):
        self.h = h
        self.M, self.N = h.size("M"), h.size("N")
        self.a, self.n, self.r = h.arr("a", (self.M, ONE)), h.arr("n", (self.M, ONE), "i"), h.arr("r", (self.N,))
        h.forall(self.M, lambda m: tm.lt(R0, el(self.a, m, Z)))
        h.forall(self.M, lambda m: tm.le(ONE, el(self.n, m, Z)))
        h.forall(self.N, lambda k: tm.le(R0, el(self.r, k)))
        self.k, self.m = h.index("k", self.N), h.index("m", self.M)
        h.reachable("inputs")

    def spec(self, r, m=None):
        m = self.m if m is None else m
        a, n = el(self.a, m, Z), el(self.n, m, Z)
        return mul(tm.pow_(mul(num(2.0), a), n), tm.sqrt(div(mul(num(2.0), a), tm.fact(mul(num(2), n)))),
                   tm.pow_(r, sub(n, ONE)), tm.exp(tm.neg(mul(a, r))))


@group("value", bounds=BD)
def value(h):
    s = Sto(h)

    def post(v):
        h.shape("rows are points, columns are functions", v, (s.N, s.M))
        h.eq("value", el(v, s.k, s.m), s.spec(el(s.r, s.k)))
    fn = lambda: h.call(S + "radial_slater_orbital", s.a, s.n, s.r)
    h.run("value", fn, post)

    def again():
        h.inplace(fn, s.a, s.n, s.r)
        return fn()
    h.run("after other calls on the same arrays", again, post)


GROUPS.append(value)


@group("norm", bounds=BD)
def norm(h):
    s = Sto(h)
    r, a, n = el(s.r, s.k), el(s.a, s.m, Z), el(s.n, s.m, Z)
    two_n = mul(num(2), n)
    C = div(tm.pow_(mul(num(2.0), a), add(two_n, ONE)), tm.fact(two_n))

    def post(v):
        x = el(v, s.k, s.m)
        with h.under(tm.lt(R0, r)):
            h.eq("square times r^2", mul(x, x, r, r), mul(C, tm.pow_(r, two_n), tm.exp(tm.neg(mul(num(2.0), a, r)))))
    h.run("value", lambda: h.call(S + "radial_slater_orbital", s.a, s.n, s.r), post)
    # Gamma integral
    h.eq("integral of the square is one", mul(C, div(tm.fact(two_n), tm.pow_(mul(num(2.0), a), add(two_n, ONE)))), num(1.0))


GROUPS.append(norm)


@group("derivative", bounds=BD)
def derivative(h):
    s = Sto(h)
    x = sym("x")
    d = diff(s.spec(x), x)
    r = el(s.r, s.k)

    def post(v):
        h.shape("rows are points, columns are functions", v, (s.N, s.M))
        with h.under(tm.le(num(1e-10), r)):
            h.eq("exact derivative away from the nucleus", el(v, s.k, s.m), tm.subst(d, {x: r}))
        with h.under(tm.lt(r, num(1e-10))):
            h.eq("zero at the nucleus", el(v, s.k, s.m), R0)
    fn = lambda: h.call(S + "derivative_radial_slater_type_orbital", s.a, s.n, s.r)
    h.run("derivative", fn, post)

    def again():
        h.inplace(fn, s.a, s.n, s.r)
        return fn()
    h.run("after other calls on the same arrays", again, post)


GROUPS.append(derivative)


@group("points of other dimension are refused", bounds=[{"M": 2, "N": 2}])
def refuse(h):
    s = Sto(h)
    p2 = h.arr("p2", (s.N, ONE))
    h.refused("two-dimensional points", lambda: h.call(S + "radial_slater_orbital", s.a, s.n, p2))


GROUPS.append(refuse)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, "r") for g in GROUPS[:]]
