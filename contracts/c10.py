from contracts.common import *
from vc.harness import integral as integers

GROUPS = []
ASSUMPTIONS = ["np.trapz is the trapezoidal rule (assumed contract, sampled by the runtime contracts)"]
UNI, BASE = "bfit.grid.UniformRadialGrid", "bfit.grid._BaseRadialGrid"


def trap(x, y, n):
    return tm.sum_(Z, sub(n, ONE), lambda k: div(mul(add(el(y, k), el(y, add(k, ONE))),
                                                     sub(el(x, add(k, ONE)), el(x, k))), num(2.0)))


def grid(h, x):
    return h.call(BASE, x)


@group("trapezoidal rule", bounds=[{"n": 1}, {"n": 2}, {"n": 4}])
def rule(h):
    n = h.size("n")
    x, y = h.arr("x", (n,)), h.arr("y", (n,))
    h.reachable("inputs")
    h.run("integrate", lambda: h.meth(grid(h, x), "integrate", y), lambda v: h.eq("trapezoidal sum", v, trap(x, y, n)))
    h.run("points", lambda: h.attr(grid(h, x), "points"), lambda v: (
        h.shape("points shape", v, (n,)), (lambda i: h.eq("points are those given", el(v, i), el(x, i)))(h.index("i", n))))

    def again():
        g = grid(h, x)
        z = h.arr("z", (n,))
        h.meth(g, "integrate", z)
        h.inplace(lambda: h.meth(g, "integrate", y), y)
        return h.meth(g, "integrate", y)
    h.run("after an earlier integration", again, lambda v: h.eq("no history", v, trap(x, y, n)))


@group("trapezoidal rule on the documented grids", bounds=[{"n": 1}, {"n": 4}])
def ongrids(h):
    n, m, d = h.size("n"), h.size("m", 0), h.size("d", 0)
    a, b = h.real("a"), h.real("b")
    h.assume(tm.lt(a, b))
    y = h.arr("y", (n,))

    def go():
        g = h.call(UNI, n, a, b)
        return h.attr(g, "points"), h.meth(g, "integrate", y)
    h.run("UniformRadialGrid", go, lambda v: h.eq("uniform grid", v[1], trap(v[0], y, n)))
    zat = h.size("Z")
    h.assume(tm.lt(Z, add(m, d)))
    w = h.arr("w", (add(m, d),))

    def go2():
        g = h.call("bfit.grid.ClenshawRadialGrid", zat, m, d)
        return h.attr(g, "points"), h.meth(g, "integrate", w)
    h.run("ClenshawRadialGrid", go2, lambda v: h.eq("Clenshaw grid", v[1], trap(v[0], w, add(m, d))))


@group("linear", bounds=[{"n": 1}, {"n": 3}])
def linear(h):
    n = h.size("n")
    x, y, z = h.arr("x", (n,)), h.arr("y", (n,)), h.arr("z", (n,))
    a, b = h.real("a"), h.real("b")
    comb = Arr(Buf(lambda ix: add(mul(a, el(y, ix[0])), mul(b, el(z, ix[0]))), (n,), "f"))

    def go():
        g = grid(h, x)
        return [h.meth(g, "integrate", v) for v in (comb, y, z)]
    h.run("integrate", go, lambda v: h.eq("integral of a y + b z", v[0], add(mul(a, tv(v[1])), mul(b, tv(v[2])))))


@group("affine integrands", bounds=[{"n": 1}, {"n": 2}, {"n": 5}])
def affine(h):
    n = h.size("n")
    x = h.arr("x", (n,))
    a, b = h.real("a"), h.real("b")
    y = Arr(Buf(lambda ix: add(a, mul(b, el(x, ix[0]))), (n,), "f"))
    F = lambda t: add(mul(a, t), div(mul(b, t, t), num(2.0)))

    def post(v):
        # telescoping: the summand is F(x_{k+1}) - F(x_k)
        h.eq("sum of differences of the antiderivative", v,
             tm.sum_(Z, sub(n, ONE), lambda k: sub(F(el(x, add(k, ONE))), F(el(x, k)))))
        # and induction on n: T(1) = 0 and T(k+1) = T(k) + F(x_{k+1}) - F(x_k)
        T = lambda k: tm.sum_(Z, k, lambda j: sub(F(el(x, add(j, ONE))), F(el(x, j))))
        k = h.index("k", n)
        h.eq("base", T(Z), R0)
        s = sym("Tk")
        h.eq("step", add(s, sub(F(el(x, add(k, ONE))), F(el(x, k)))),
             add(sub(s, sub(F(el(x, k)), F(el(x, Z)))), sub(F(el(x, add(k, ONE))), F(el(x, Z)))))
    h.run("integrate", lambda: h.meth(grid(h, x), "integrate", y), post)


@group("non-negative", bounds=[{"n": 1}, {"n": 4}])
def nonneg(h):
    n = h.size("n")
    x, y = h.arr("x", (n,)), h.arr("y", (n,))
    h.forall(n, lambda k: tm.le(R0, el(y, k)))
    h.assume(tm.all_(Z, sub(n, ONE), lambda k: tm.le(el(x, k), el(x, add(k, ONE)))))
    h.run("integrate", lambda: h.meth(grid(h, x), "integrate", y), lambda v: h.le("integral >= 0", R0, v))


@group("other shapes refused", bounds=[{"n": 3, "k": 2, "D": 2}, {"n": 2, "k": 3, "D": 1}])
def refused(h):
    n, k, D = h.size("n"), h.size("k", 0), h.size("D")
    x = h.arr("x", (n,))
    y, y2, y3 = h.arr("y", (k,)), h.arr("y2", (n, D)), h.arr("y3", (D, n))
    with h.under(tm.not_(tm.eq(n, k))):
        h.refused("another length is refused", lambda: h.meth(grid(h, x), "integrate", y))
    h.refused("a matrix (n, D) is refused", lambda: h.meth(grid(h, x), "integrate", y2))
    h.refused("a matrix (D, n) is refused", lambda: h.meth(grid(h, x), "integrate", y3))
    a, b = h.real("a"), h.real("b")
    h.assume(tm.lt(a, b))
    with h.under(tm.not_(tm.eq(n, k))):
        h.refused("uniform grid: another length is refused", lambda: h.meth(h.call(UNI, n, a, b), "integrate", y))


GROUPS = [rule, ongrids, linear, affine, nonneg, refused]


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, "y") for g in GROUPS[:]]
