"""Greedy starting functions: the Kullback-Leibler formula and its stationarity under the fixed-point step (any grid),
and the least-squares start as the solution of three weighted regressions, the best of which is returned."""
from contracts.fitbase import *
from vc.harness import integral as integers

GROUPS = []
MOD = "bfit.greedy."
BD = [{"N": 2}, {"N": 3}]


class Data:
    def __init__(self, h, exact=False):
        self.h = h
        self.N = h.size("N", 2)
        self.x, self.w = h.arr("x", (self.N,)), h.arr("w", (self.N,))
        if exact:
            self.c, self.a = h.real("c", pos=True), h.real("a")
            self.f = Arr(Buf(lambda ix: mul(self.c, tm.exp(tm.neg(mul(self.a, tm.pow_(el(self.x, ix[0]), num(2)))))), (self.N,), "f", "f"))
        else:
            self.f = h.arr("f", (self.N,))
        h.forall(self.N, lambda k: tm.lt(ZR, el(self.f, k)))
        self.grid = h.call("stubs.anygrid.AnyGrid", self.x, self.w)

    def I(self, fn, spherical):
        if spherical:
            return tm.sum_(Z, self.N, lambda k: mul(el(self.w, k), fn(k), num(4.0), PI, tm.pow_(el(self.x, k), num(2.0))))
        return tm.sum_(Z, self.N, lambda k: mul(el(self.w, k), fn(k)))


def two(h, v):
    h.shape("two numbers", v, (num(2),))
    return el(v, Z), el(v, ONE)


def kl_start(spherical, target):
    @group("KL start spherical=%s target=%s" % (spherical, target), bounds=BD)
    def g(h):
        d = Data(h)
        f = lambda k: el(d.f, k)
        If = d.I(f, spherical)
        T = h.real("T") if target else None
        want = tv(T) if target else If
        r4 = tm.sum_(Z, d.N, lambda k: mul(el(d.w, k), f(k), tm.pow_(el(d.x, k), num(4))))
        h.assume(tm.not_(tm.eq(If, ZR)))
        h.assume(tm.not_(tm.eq(want, ZR)))
        h.assume(tm.not_(tm.eq(r4, ZR)))
        kw = {"integral_dens": T} if target else {}

        def go():
            o = h.call(MOD + "GreedyKLFPI", d.grid, d.f, spherical=spherical, **kw)
            return o, h.meth(o, "get_best_one_function_solution"), h.meth(o, "get_best_one_function_solution")

        def post(v):
            o, first, again = v
            for p in (first, again):
                c, e = two(h, p)
                h.eq("coefficient = target integral", c, want)
                h.eq("exponent = 3N / (8 pi integral r^4 f)", e, div(mul(num(3.0), want), mul(num(8.0), PI, r4)))
        h.run("start", go, post)
        if spherical and not target:
            # a fixed point of the update, for any model above the mask whose value is coefficient times its column
            c0, e0 = h.arr("c0", (ONE,)), h.arr("e0", (ONE,))
            G = lambda k: app("g!", k)

            def model(it, args, kw):
                a = dict(zip(["self", "coeffs", "expons", "deriv"], args))
                a.update(kw)
                h.eq("model is evaluated at the start", el(a["coeffs"], Z), If)
                val = Arr(Buf(lambda ix: G(ix[0]), (d.N,), "f"))
                return (val, Arr(Buf(lambda ix: tm.ite(tm.eq(ix[1], Z), div(G(ix[0]), If), app("dbe!", ix[0])), (d.N, num(2)), "f")))
            h.it.contracts[("bfit.model", "AtomicGaussianDensity.evaluate")] = model
            h.forall(d.N, lambda k: tm.lt(num(1e-12), G(k)))

            def step():
                o = h.call(MOD + "GreedyKLFPI", d.grid, d.f, spherical=True)
                p = h.meth(o, "get_best_one_function_solution")
                fit = h.attr(o, "fitting_obj")
                return p, h.meth(fit, "_update_params", h.it.getitem(p, SliceV(None, 1, None)),
                                 h.it.getitem(p, SliceV(1, None, None)), True, True)

            def post2(v):
                p, (nc, ne) = v[0], h.it.concrete_items(v[1])
                h.eq("the update leaves the coefficient", el(nc, Z), el(p, Z))
                h.eq("the update leaves the exponent", el(ne, Z), el(p, ONE))
            h.run("fixed point", step, post2)
    GROUPS.append(g)


for _s in (False, True):
    for _t in (False, True):
        kl_start(_s, _t)

WEIGHTS = (("1", lambda f: num(1.0)), ("f", lambda f: f), ("f^2", lambda f: mul(f, f)))


def moments(d, wf):
    f = lambda k: el(d.f, k)
    x2 = lambda k: tm.pow_(el(d.x, k), num(2))
    S = lambda fn: tm.sum_(Z, d.N, lambda k: mul(wf(f(k)), fn(k)))
    one = lambda k: num(1.0)
    lf = lambda k: tm.log(f(k))
    return (S(one), S(x2), S(lambda k: mul(x2(k), x2(k))), S(lf), S(lambda k: mul(x2(k), lf(k))))


def ls(h, d):
    for _, wf in WEIGHTS:
        S0, S1, S2, _, _ = moments(d, wf)
        # strict Cauchy-Schwarz for two distinct radii and positive weights
        h.assume(tm.lt(ZR, sub(mul(S0, S2), mul(S1, S1))))
    return h.call(MOD + "GreedyLeastSquares", d.grid, d.f)


@group("regression matrix is nonsingular", bounds=BD)
def nonsingular(h):
    """Lagrange's identity: S0 S2 - S1^2 is half the double sum of w_i w_j (x_i^2 - x_j^2)^2, whose terms are not negative
    and positive for the two distinct radii."""
    d = Data(h)
    x2 = lambda k: tm.pow_(el(d.x, k), num(2))
    for nm, wf in WEIGHTS:
        S0, S1, S2, _, _ = moments(d, wf)
        W = lambda k: wf(el(d.f, k))
        term = lambda i, j: mul(W(i), W(j), tm.pow_(sub(x2(i), x2(j)), num(2)))
        h.eq("identity, weight " + nm, mul(num(2.0), sub(mul(S0, S2), mul(S1, S1))),
             tm.sum_(Z, d.N, lambda i: tm.sum_(Z, d.N, lambda j: term(i, j))))
        i, j = h.index("i", d.N), h.index("j", d.N)
        h.le("no term is negative", ZR, term(i, j))
        with h.under(tm.not_(tm.eq(x2(i), x2(j)))):
            h.lt("two distinct radii give a positive term", ZR, term(i, j))


GROUPS.append(nonsingular)


@group("LS regression", bounds=BD)
def regression(h):
    d = Data(h)
    for nm, wf in WEIGHTS:
        S0, S1, S2, T0, T1 = moments(d, wf)
        wt = Arr(Buf(lambda ix, wf=wf: wf(el(d.f, ix[0])), (d.N,), "f"))

        def post(v):
            c, e = two(h, v)
            A = tm.log(c)
            h.lt("coefficient is positive", ZR, c)
            h.eq("weight %s: first normal equation" % nm, sub(mul(S0, A), mul(S1, e)), T0)
            h.eq("weight %s: second normal equation" % nm, sub(mul(S1, A), mul(S2, e)), T1)
        h.run("weight " + nm, lambda: h.meth(ls(h, d), "_solve_one_function_weight", wt), post)


GROUPS.append(regression)


@group("LS best candidate", bounds=BD)
def best(h):
    d = Data(h)
    J = lambda c, e: app("J", c, e)

    def solve(it, args, kw):
        w = args[1]
        k = tm.fresh("k", I)
        h.ctx.push()
        try:
            h.ctx.assume(tm.and_(tm.le(Z, k), tm.lt(k, d.N)))
            which = [i for i, (_, wf) in enumerate(WEIGHTS) if h.ctx.prove_eq(el(w, k), wf(el(d.f, k)))]
        finally:
            h.ctx.pop()
        if not which:
            raise ObligationFailed("regression with other weights: %s" % tm.show(el(w, k)))
        seen.add(which[0])
        return Arr(Buf(lambda ix, i=which[0]: app("sol%d" % i, ix[0]), (num(2),), "f"))

    def cost(it, args, kw):
        return Num(J(*two(h, args[1])))
    seen = set()
    h.it.contracts[("bfit.greedy", "GreedyLeastSquares._solve_one_function_weight")] = solve
    h.it.contracts[("bfit.greedy", "GreedyStrategy.eval_obj_function")] = cost
    sol = [[app("sol%d" % i, num(j)) for j in (0, 1)] for i in range(3)]

    def post(v):
        h.is_true("the three weights are tried", seen == {0, 1, 2}, repr(seen))
        c, e = two(h, v)
        h.holds("one of the three candidates", tm.or_(*[tm.and_(tm.eq(c, s[0]), tm.eq(e, s[1])) for s in sol]))
        for i, s in enumerate(sol):
            h.le("not worse than candidate %d" % i, J(c, e), J(*s))
    h.run("start", lambda: h.meth(ls(h, d), "get_best_one_function_solution"), post)


GROUPS.append(best)


@group("LS exact data", bounds=BD)
def exact(h):
    d = Data(h, True)
    h.it.contracts[("bfit.greedy", "GreedyStrategy.eval_obj_function")] = lambda it, args, kw: Num(app("J", el(args[1], Z), el(args[1], ONE)))

    def post(v):
        c, e = two(h, v)
        h.eq("exponent recovered", e, tv(d.a))
        h.lt("coefficient is positive", ZR, c)
        h.eq("logarithm of the coefficient recovered", tm.log(c), tm.log(tv(d.c)))
    h.run("start", lambda: h.meth(ls(h, d), "get_best_one_function_solution"), post)


GROUPS.append(exact)


@group("objective of the candidates", bounds=BD)
def objective(h):
    """The value by which candidates are compared is the integrated squared difference (infinite for non-finite ones)."""
    for spherical in (False, True):
        s = Fit(h, 1, False, spherical)
        h.forall(s.N, lambda k: tm.lt(ZR, el(s.f, k)))
        s.M = ONE
        s.install()
        c, e = s.params()
        pv = Arr(Buf(lambda ix: tm.ite(tm.eq(ix[0], Z), el(c, Z), el(e, Z)), (num(2),), "f"))
        o = lambda: h.call(MOD + "GreedyLeastSquares", s.make_grid(), s.f, spherical=spherical)
        h.run("objective", lambda: h.meth(o(), "eval_obj_function", pv),
              lambda v: h.eq("objective = integral of (f-g)^2", v, s.I(lambda k: tm.pow_(sub(el(s.f, k), s.g("0", k)), num(2)))))


GROUPS.append(objective)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n.split(), label=", integer " + n) for g in GROUPS[:] for n in ('x f w', 'c0 e0')]
