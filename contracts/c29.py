"""Refusal postconditions: for arguments of every other shape (any size, one to three dimensions) every path of the real
code raises; for well-formed arguments no path raises."""
from contracts.gauss import *
from contracts.fitbase import Fit, FPI, SCI, ZR
from contracts import c03, c11, c21, c23, atoms

GROUPS = []
LEVEL_NOTE = ("arrays of no, one, two and three dimensions with any sizes; a run on well-formed guesses is proved to be accepted "
              "up to the call of the optimiser (its behaviour is an assumed contract)")
TOL = num(1e-12)


def other_shapes(h, n, tag, dtype="f"):
    """Arrays whose shape is not (n,): (label, array, condition)."""
    m = sym("m!" + tag, I) if h.sizes is None else None
    out = []
    if h.sizes is None:
        k = sym("k!" + tag, I)
        l = sym("l!" + tag, I)
        pos = tm.and_(tm.le(Z, m), tm.le(Z, k))
        out.append(("another length", h.arr("y1" + tag, (m,), dtype), tm.and_(tm.le(Z, m), tm.not_(tm.eq(m, n)))))
        out.append(("two dimensions", h.arr("y2" + tag, (m, k), dtype), pos))
        out.append(("a column", h.arr("yc" + tag, (n, ONE), dtype), tm.TRUE))
        out.append(("a row", h.arr("yr" + tag, (ONE, n), dtype), tm.TRUE))
        out.append(("three dimensions", h.arr("y3" + tag, (m, k, l), dtype), tm.and_(pos, tm.le(Z, l))))
    else:
        nn = int(tm.val(n))
        for j in (0, 1, nn + 1, 2 * nn):
            if j != nn:
                out.append(("length %d" % j, h.arr("y1%s_%d" % (tag, j), (num(j),), dtype), tm.TRUE))
        for a, b in ((nn, 1), (1, nn), (nn, nn)):
            out.append(("shape %d %d" % (a, b), h.arr("y2%s_%d_%d" % (tag, a, b), (num(a), num(b)), dtype), tm.TRUE))
    out.append(("no dimension", h.arr("y0" + tag, (), dtype), tm.TRUE))
    return out


def refuse(h, what, n, tag, fn, dtype="f", skip=()):
    for lab, a, cond in other_shapes(h, n, tag, dtype):
        if lab in skip:
            continue
        with h.under(cond):
            if h.ctx.inconsistent():
                continue
            h.refused("%s: %s" % (what, lab), lambda: fn(a))


def accept(h, what, fn, post=None):
    h.run(what + " is accepted", fn, lambda v: (h.ok(what + " is accepted", "path enumeration"), post and post(v)), frame=False)


def obligations(name, bounds, timeout=150):
    def deco(fn):
        GROUPS.append(group(name, bounds=bounds, timeout=timeout)(fn))
        return fn
    return deco


# ---------------------------------------------------------------------- atomic model
def ctor(dims):
    @obligations("atomic model %dD: construction" % dims, [{"N": 2, "D": 3, "ns": 1, "np": 1}, {"N": 1, "D": 1, "ns": 2, "np": 1}])
    def g(h):
        N, D = h.size("N"), h.size("D")
        ns, np_ = h.size("ns", 0), h.size("np", 0)
        x = h.arr("x", (N,)) if dims == 1 else h.arr("x", (N, D))
        n = ONE if dims == 1 else D
        cen = h.arr("cen", (n,))
        refuse(h, "centre", n, "cen", lambda a: h.call(ATOM, x, a, num_s=ONE, num_p=ONE))
        h.refused("centre is a list", lambda: h.call(ATOM, x, [num(0.0)] if dims == 1 else [num(0.0), num(0.0)]))
        h.refused("centre is a number", lambda: h.call(ATOM, x, num(0.0)))
        h.refused("points are a list", lambda: h.call(ATOM, [num(0.0), num(1.0)]))
        h.refused("points are a number", lambda: h.call(ATOM, num(1.0)))
        for c in (cen, None):
            mk = lambda a, b: h.call(ATOM, x, c, num_s=a, num_p=b)
            h.refused("no function", lambda: mk(Z, Z))
            q, t = h.real("q"), sym("neg", I)
            h.refused("number of s-type functions is not an integer", lambda: mk(q, ONE))
            h.refused("number of p-type functions is not an integer", lambda: mk(ONE, q))
            with h.under(tm.lt(t, Z)):
                h.refused("negative number of s-type functions", lambda: mk(t, np_))
                h.refused("negative number of p-type functions", lambda: mk(ns, t))
            with h.under(tm.lt(Z, add(ns, np_))):
                h.reachable("well-formed")
                accept(h, "a well-formed model", lambda: mk(ns, np_), lambda o: h.eq("number of functions", h.attr(o, "nbasis"), add(ns, np_)))
        accept(h, "the default model", lambda: h.call(ATOM, x))

        def change(a, b):
            o = h.call(ATOM, x, cen, num_s=ns, num_p=np_)
            h.meth(o, "change_numb_s_and_numb_p", a, b)
            return o
        a, b = sym("a", I), sym("b", I)
        with h.under(tm.lt(Z, add(ns, np_))):
            h.refused("changed to no function", lambda: change(Z, Z))
            with h.under(tm.lt(a, Z)):
                h.refused("changed to a negative number of s-type functions", lambda: change(a, b))
                h.refused("changed to a negative number of p-type functions", lambda: change(b, a))
            h.refused("changed to a number that is not an integer", lambda: change(h.real("q"), ONE))
            h.refused("changed to a number that is not an integer", lambda: change(ONE, h.real("q")))
            with h.under(tm.and_(tm.le(Z, a), tm.le(Z, b), tm.lt(Z, add(a, b)))):
                accept(h, "another number of functions", lambda: change(a, b))


ctor(1)
ctor(2)


def evaluate(kind, dims, norm):
    @obligations("atomic model %s %dD normalize=%s: parameters" % (kind, dims, norm), small(dims, kind))
    def g(h):
        s = Setup(h, kind, dims, norm)
        for d in (False, True):
            ev = lambda c, a: h.meth(s.make(), "evaluate", c, a, deriv=d)
            refuse(h, "coefficients deriv=%s" % d, s.M, "c", lambda y: ev(y, s.a))
            refuse(h, "exponents deriv=%s" % d, s.M, "a", lambda y: ev(s.c, y))
            refuse(h, "coefficients and exponents deriv=%s" % d, s.M, "b", lambda y: ev(y, y))
            accept(h, "the right number of parameters deriv=%s" % d, lambda: ev(s.c, s.a))


for _k, _d, _n in (("s", 1, False), ("p", 1, True), ("sp", 2, True), ("sp", 1, False)):
    evaluate(_k, _d, _n)


# ---------------------------------------------------------------------- molecular model
@obligations("molecular model: construction", c03.BOUNDS[:2])
def mol_ctor(h):
    m = c03.Mol(h, False)
    atomic_contract(h, False)
    h.it.contracts.pop(("bfit.model", "AtomicGaussianDensity.__init__"), None)
    accept(h, "a well-formed model", m.make)
    mk = lambda p=None, X=None, b=None: h.call(MOL, m.pts if p is None else p, m.crd if X is None else X, m.bas if b is None else b)
    A, D, N = m.A, m.D, m.N
    h.refused("coordinates of one dimension", lambda: mk(X=h.arr("X1", (A,))))
    h.refused("coordinates of three dimensions", lambda: mk(X=h.arr("X3", (A, D, ONE))))
    h.refused("coordinates in a list", lambda: mk(X=[num(0.0)]))
    h.refused("table of functions of one dimension", lambda: mk(b=h.arr("b1", (A,), "i")))
    k = sym("k", I)
    with h.under(tm.and_(tm.le(Z, k), tm.not_(tm.eq(k, num(2))))):
        h.refused("table of functions without two columns", lambda: mk(b=h.arr("b2", (A, k), "i")))
    with h.under(tm.and_(tm.le(Z, k), tm.not_(tm.eq(k, A)))):
        h.refused("coordinates of another number of centres", lambda: mk(X=h.arr("Xk", (k, D))))
    with h.under(tm.and_(tm.le(Z, k), tm.not_(tm.eq(k, D)))):
        h.refused("coordinates of another dimension", lambda: mk(X=h.arr("Xd", (A, k))))
        h.refused("points of another dimension", lambda: mk(p=h.arr("xd", (N, k))))
    h.refused("no centre", lambda: mk(X=h.arr("X0", (Z, D)), b=h.arr("b0", (Z, num(2)), "i")))
    with h.under(tm.not_(tm.eq(D, ONE))):
        h.refused("one-dimensional points with coordinates of several columns", lambda: mk(p=h.arr("x1", (N,))))
    h.refused("functions counted with real numbers", lambda: mk(b=h.arr("br", (A, num(2)), "f")))


@obligations("molecular model: a centre with no or a negative number of functions", [{"N": 1, "D": 2, "A": 1, "q": 0}, {"N": 1, "D": 2, "A": 3, "q": 1}])
def mol_zero(h):
    N, D, A = h.size("N"), h.size("D"), h.size("A")
    q = h.index("q", A)
    bas, X, x = h.arr("b", (A, num(2)), "i"), h.arr("X", (A, D)), h.arr("x", (N, D))
    b = lambda k, j: el(bas, k, num(j))
    mk = lambda: h.call(MOL, x, X, bas)
    with h.under(tm.eq(b(q, 0), Z), tm.eq(b(q, 1), Z)):
        h.refused("a centre without functions", mk)
    for j in (0, 1):
        with h.under(tm.lt(b(q, j), Z)):
            h.refused("a centre with a negative number", mk)


@obligations("molecular model: parameters", c03.BOUNDS)
def mol_eval(h):
    m = c03.Mol(h, False)
    atomic_contract(h, False)
    for d in (False, True):
        ev = lambda c, a: h.meth(m.make(), "evaluate", c, a, deriv=d)
        refuse(h, "coefficients deriv=%s" % d, m.M, "c", lambda y: ev(y, m.a))
        refuse(h, "exponents deriv=%s" % d, m.M, "a", lambda y: ev(m.c, y))
        refuse(h, "coefficients and exponents deriv=%s" % d, m.M, "b", lambda y: ev(y, y))
        accept(h, "the right number of parameters deriv=%s" % d, lambda: ev(m.c, m.a))
    k = sym("k", I)
    with h.under(tm.le(m.M, k)):
        h.refused("look-up of a function that does not exist", lambda: h.meth(m.make(), "assign_basis_to_center", k))


# ---------------------------------------------------------------------- measures
MEAS = (("SquaredDifference", {}), ("KLDivergence", {}), ("TsallisDivergence", {}))


def measure(nm, kw):
    @obligations("measure " + nm, [{"N": 1}, {"N": 3}])
    def g(h):
        N = h.size("N")
        f, m = h.arr("f", (N,)), h.arr("g", (N,))
        h.forall(N, lambda k: tm.le(ZR, el(f, k)))
        for d in (False, True):
            ev = lambda a, b: h.meth(h.call("bfit.measure." + nm, **kw), "evaluate", a, b, deriv=d)
            refuse(h, "density deriv=%s" % d, N, "f", lambda y: ev(y, m))
            refuse(h, "model deriv=%s" % d, N, "m", lambda y: ev(f, y))
            for lab, a, cond in other_shapes(h, N, "b"):
                if lab == "another length" or lab.startswith("length"):
                    continue          # equal shapes of one dimension are well-formed
                with h.under(cond):
                    h.refused("both deriv=%s: %s" % (d, lab), lambda: ev(a, a))
            h.refused("density in a list", lambda: ev([num(0.5)], m))
            h.refused("model in a list", lambda: ev(f, [num(0.5)]))
            accept(h, "equal shapes deriv=%s" % d, lambda: ev(f, m))


for _nm, _kw in MEAS:
    measure(_nm, _kw)


# ---------------------------------------------------------------------- grids
@obligations("radial grids", [{"n": 1}, {"n": 3}])
def radial(h):
    n = h.size("n")
    x, y = h.arr("x", (n,)), h.arr("y", (n,))
    base = "bfit.grid._BaseRadialGrid"
    refuse(h, "integrand", n, "y", lambda a: h.meth(h.call(base, x), "integrate", a))
    accept(h, "an integrand on the points", lambda: h.meth(h.call(base, x), "integrate", y))
    for lab, a, cond in other_shapes(h, n, "p"):
        if lab == "another length" or lab.startswith("length"):
            continue
        with h.under(cond):
            h.refused("points: " + lab, lambda: h.call(base, a))
    h.refused("points in a list", lambda: h.call(base, [num(0.0)]))
    a, b = h.real("a"), h.real("b")
    with h.under(tm.lt(a, b)):
        refuse(h, "integrand on a uniform grid", n, "y", lambda z: h.meth(h.call("bfit.grid.UniformRadialGrid", n, a, b), "integrate", z))
        accept(h, "an integrand on a uniform grid", lambda: h.meth(h.call("bfit.grid.UniformRadialGrid", n, a, b), "integrate", y))
    m = add(n, n)
    w = h.arr("w", (m,))
    refuse(h, "integrand on a Clenshaw grid", m, "w", lambda z: h.meth(h.call("bfit.grid.ClenshawRadialGrid", ONE, n, n), "integrate", z))
    accept(h, "an integrand on a Clenshaw grid", lambda: h.meth(h.call("bfit.grid.ClenshawRadialGrid", ONE, n, n), "integrate", w))


@obligations("cubic grid", c11.BD)
def cubic(h):
    c = c11.Cub(h)
    refuse(h, "integrand", c.N, "y", lambda a: h.meth(c.make(), "integrate", a))
    accept(h, "an integrand on the points", lambda: h.meth(c.make(), "integrate", h.arr("y", (c.N,))))
    n = c.n
    h.refused("integrand of the shape of the cube", lambda: h.meth(c.make(), "integrate", h.arr("yq", tuple(n))))


# ---------------------------------------------------------------------- fits
FB = [{"N": 2, "ns": 1, "np": 1}, {"N": 3, "ns": 2, "np": 0}]
FB3 = [{"N": 3, "A": 2, "basis": [[1, 0], [0, 1]], "nk": 2}, {"N": 2, "A": 1, "basis": [[2, 1]], "nk": 1}]


def setup(h, cls, dims, mol, spherical, **kw):
    s = Fit(h, dims, mol, spherical)
    h.assume(tm.not_(tm.eq(s.I(lambda k: el(s.f, k)), ZR)))
    base = dict(spherical=spherical, integral_dens=h.real("T", pos=True))
    if cls == SCI:
        base["measure"] = h.call("bfit.measure.SquaredDifference")
    base.update(kw)

    def make(grid=None, f=None, model=None, **k2):
        a = dict(base)
        a.update(k2)
        return h.call(cls, s.make_grid() if grid is None else grid, s.f if f is None else f,
                      s.make_model() if model is None else model, **a)
    return s, make


def fit_ctor(cls, dims, spherical):
    @obligations("construction of %s %dD spherical=%s" % (cls.split(".")[-1], dims, spherical), FB)
    def g(h):
        s, make = setup(h, cls, dims, False, spherical)
        N = s.N
        h.reachable("well-formed")
        accept(h, "a well-formed fit", make)
        accept(h, "a well-formed fit without target", lambda: make(integral_dens=None))
        for T in ({}, {"integral_dens": None}):
            refuse(h, "density" + (" no target" if T else ""), N, "f", lambda y: make(f=y, **T))
        with h.under(tm.lt(h.real("neg"), ZR)):
            i = s.i
            fn = Arr(Buf(lambda ix: tm.ite(tm.eq(ix[0], i), h.real("neg"), el(s.f, ix[0])), (N,), "f"))
            h.refused("a density that is negative at one point", lambda: make(f=fn))
        m = sym("m", I)
        x = s.x
        tail = () if dims == 1 else (num(3),)
        mod = lambda p, D=num(3): h.call(ATOM, p, None, num_s=ONE, num_p=ONE)
        with h.under(tm.le(ONE, m), tm.not_(tm.eq(m, N))):
            h.refused("a model on another number of points", lambda: make(model=mod(h.arr("xm", (m,) + tail))))
        xm = h.arr("xo", (N,) + tail)
        dd = () if dims == 1 else (ONE,)
        with h.under(tm.lt(TOL, tm.abs_(sub(el(xm, s.i, *dd), el(x, s.i, *dd))))):
            h.refused("a model whose point differs", lambda: make(model=mod(xm)))
        if dims == 1:
            k = sym("k", I)
            with h.under(tm.le(ONE, k)):
                h.refused("a model on points of another dimension", lambda: make(model=mod(h.arr("xk", (N, k)))))
            with h.under(tm.le(ONE, k), tm.le(ONE, m)):
                h.refused("a model on points of another dimension", lambda: make(model=mod(h.arr("xmk", (m, k)))))
        else:
            k = sym("k", I)
            with h.under(tm.le(ONE, k), tm.not_(tm.eq(k, num(3)))):
                h.refused("a model on points of another dimension", lambda: make(model=mod(h.arr("xk", (N, k)))))
            h.refused("a model on points of another dimension", lambda: make(model=mod(h.arr("x1", (N,)))))
            h.refused("spherical integration of points in space", lambda: make(spherical=True))
        for missing in ("NoPoints", "NoIntegrate"):
            h.refused("a grid without %s" % missing[2:].lower(), lambda: make(grid=h.call("stubs.badgrid." + missing, s.x)))
        if cls == SCI:
            refuse(h, "weights", N, "w", lambda y: make(weights=y))
            h.refused("unknown method", lambda: make(method="newton"))
            h.refused("unknown method", lambda: make(method=""))
            h.refused("unknown method", lambda: make(method="slsqp "))
            h.refused("a measure that is none", lambda: make(measure=None))
            h.refused("a measure that is a class", lambda: make(measure=h.get("bfit.measure.KLDivergence")))
            for mt in ("slsqp", "SLSQP", "trust-constr"):
                accept(h, "method " + mt, lambda: make(method=mt))


for _c in (FPI, SCI):
    for _d, _s in ((1, False), (1, True), (2, False)):
        fit_ctor(_c, _d, _s)


def fit_eval(cls, spherical):
    @obligations("integrals and reports of %s spherical=%s" % (cls.split(".")[-1], spherical), FB)
    def g(h):
        s, make = setup(h, cls, 1, False, spherical)
        o = [None]
        refuse(h, "integrand", s.N, "y", lambda y: h.meth(make(), "integrate", y))
        accept(h, "an integrand on the points", lambda: h.meth(make(), "integrate", s.f))


for _c in (FPI, SCI):
    for _s in (False, True):
        fit_eval(_c, _s)


class Real:
    """A fit whose model is the real code (no contract of evaluate)."""

    def __init__(self, h, cls, spherical=False, **kw):
        self.h = h
        self.N = h.size("N")
        self.ns, self.np_ = h.size("ns", 1), h.size("np", 0)
        self.M = add(self.ns, self.np_)
        self.x, self.w, self.f = (h.arr(n, (self.N,)) for n in "xwf")
        h.forall(self.N, lambda k: tm.lt(ZR, el(self.f, k)))
        self.c, self.e = h.arr("c", (self.M,)), h.arr("e", (self.M,))
        for a in (self.c, self.e):
            h.forall(self.M, lambda k: tm.lt(ZR, el(a, k)))
        T = h.real("T", pos=True)
        I_ = tm.sum_(Z, self.N, lambda k: mul(el(self.w, k), el(self.f, k)))
        h.assume(tm.not_(tm.eq(I_, ZR)))
        kw = dict(kw, integral_dens=T)
        if cls == SCI:
            kw["measure"] = h.call("bfit.measure.SquaredDifference")
        self.make = lambda: h.call(cls, h.call("stubs.anygrid.AnyGrid", self.x, self.w), self.f,
                                   h.call(ATOM, self.x, None, num_s=self.ns, num_p=self.np_), **kw)


def guesses(cls):
    @obligations("initial guesses of %s" % cls.split(".")[-1], FB)
    def g(h):
        s = Real(h, cls)
        h.reachable("inputs")

        def stop(it, a, k):
            raise ObligationFailed("the optimisation starts")
        if cls == SCI:
            h.it.ghost["hook:minimize"] = stop
        for oc, oe in ((True, True), (True, False), (False, True)):
            run = lambda c, e: h.meth(s.make(), "run", c, e, opt_coeffs=oc, opt_expons=oe)
            lab = " coeffs=%s expons=%s" % (oc, oe)
            refuse(h, "coefficients" + lab, s.M, "c", lambda y: run(y, s.e))
            refuse(h, "exponents" + lab, s.M, "e", lambda y: run(s.c, y))
            refuse(h, "both" + lab, s.M, "b", lambda y: run(y, y))
            m, k = sym("m", I), sym("k", I)
            with h.under(tm.le(Z, m), tm.le(Z, k), tm.not_(tm.and_(tm.eq(m, s.M), tm.eq(k, s.M)))):
                h.refused("two guesses of other lengths" + lab, lambda: run(h.arr("cm", (m,)), h.arr("ek", (k,))))
        h.refused("nothing to optimise", lambda: h.meth(s.make(), "run", s.c, s.e, opt_coeffs=False, opt_expons=False))


guesses(FPI)
guesses(SCI)


def accepted(cls):
    @obligations("well-formed guesses of %s" % cls.split(".")[-1], FB)
    def g(h):
        s = Real(h, cls)
        for oc, oe in ((True, True), (True, False), (False, True)):
            if cls == SCI:
                seen = []

                def stop(it, a, k):
                    seen.append(1)
                    raise PyRaise("Started", "")
                h.it.ghost["hook:minimize"] = stop
                for wc in (False, True):
                    h.run("run reaches the optimiser", lambda: h.meth(s.make(), "run", s.c, s.e, opt_coeffs=oc, opt_expons=oe, with_constraint=wc),
                          None, raises=lambda o: h.is_true("well-formed guesses are accepted", o.value.name == "Started", "raises %s" % o.value.name), frame=False)
                h.is_true("the optimiser is called", bool(seen))
            else:
                accept(h, "run without iterations", lambda: h.meth(s.make(), "run", s.c, s.e, opt_coeffs=oc, opt_expons=oe, maxiter=Z))


def evaluations(cls):
    @obligations("parameters of %s" % cls.split(".")[-1], FB)
    def g(h):
        s = Real(h, cls)
        rep = lambda c, e: h.meth(s.make(), "goodness_of_fit", c, e)
        refuse(h, "report: coefficients", s.M, "c", lambda y: rep(y, s.e))
        refuse(h, "report: exponents", s.M, "e", lambda y: rep(s.c, y))
        refuse(h, "report: both", s.M, "b", lambda y: rep(y, y))
        if cls == FPI:
            for oc, oe in ((True, True), (True, False), (False, True)):
                up = lambda c, e: h.meth(s.make(), "_update_params", c, e, oc, oe)
                refuse(h, "step: coefficients", s.M, "c", lambda y: up(y, s.e))
                refuse(h, "step: exponents", s.M, "e", lambda y: up(s.c, y))
            h.refused("step: nothing to optimise", lambda: h.meth(s.make(), "_update_params", s.c, s.e, False, False))
        else:
            M2 = mul(num(2), s.M)
            x = h.arr("p", (M2,))
            for fn in ("func", "const_norm", "evaluate_model"):
                refuse(h, fn + ": all parameters", M2, "x", lambda y: h.meth(s.make(), fn, y))
                for tag, other in (("fixed_coeffs", s.c), ("fixed_expons", s.e)):
                    refuse(h, "%s: %s" % (fn, tag), s.M, "x", lambda y: h.meth(s.make(), fn, y, tag, other))
                    refuse(h, "%s: %s, fixed ones" % (fn, tag), s.M, "z", lambda y: h.meth(s.make(), fn, other, tag, y))
                    accept(h, "%s: %s, right shapes" % (fn, tag), lambda: h.meth(s.make(), fn, s.c if other is s.e else s.e, tag, other))
                h.refused(fn + ": unknown mode", lambda: h.meth(s.make(), fn, s.c, "fixed", s.e))
                accept(h, fn + ": right shape", lambda: h.meth(s.make(), fn, x))


for _c in (FPI, SCI):
    accepted(_c)
    evaluations(_c)


# ---------------------------------------------------------------------- greedy
def greedy(cls):
    @obligations("greedy %s" % cls.split(".")[-1], [{"N": 2}, {"N": 3}])
    def g(h):
        N = h.size("N")
        x, w, f = (h.arr(n, (N,)) for n in "xwf")
        h.forall(N, lambda k: tm.lt(ZR, el(f, k)))
        h.assume(tm.not_(tm.eq(tm.sum_(Z, N, lambda k: mul(el(w, k), el(f, k))), ZR)))
        T = h.real("T", pos=True)
        make = lambda y=None, **kw: h.call(cls, h.call("stubs.anygrid.AnyGrid", x, w), f if y is None else y, **dict({"integral_dens": T}, **kw))
        accept(h, "a well-formed problem", make)
        for c in ("pick-one", "pick-two", "pick-two-lose-one"):
            accept(h, "strategy " + c, lambda: make(choice=c))
        for c in ("pick", "", "pick-three", "Pick-One", "pick-two-lose-two"):
            h.refused("unknown strategy %r" % c, lambda: make(choice=c))
        refuse(h, "density", N, "f", lambda y: make(y))
        i = h.index("i", N)
        with h.under(tm.lt(h.real("neg"), ZR)):
            fn = Arr(Buf(lambda ix: tm.ite(tm.eq(ix[0], i), h.real("neg"), el(f, ix[0])), (N,), "f"))
            h.refused("a density that is negative at one point", lambda: make(fn))
        if cls.endswith("GreedyLeastSquares"):
            for m in ("newton", "", "bfgs"):
                h.refused("unknown method %r" % m, lambda: make(method=m))
            for m in ("slsqp", "trust-constr"):
                accept(h, "method " + m, lambda: make(method=m))
        h.refused("factor is not a float", lambda: h.meth(make(), "run", Num(num(2))))
        h.refused("factor is not a number", lambda: h.meth(make(), "run", None))
        q = h.real("q")
        with h.under(tm.le(q, ZR)):
            h.refused("factor is not positive", lambda: h.meth(make(), "run", q))
        h.refused("a strategy without a fit", lambda: h.call("stubs.greedystub.AnyStrategy", h.call(ATOM, x), "pick-one"))


for _c in (c21.LSQ, c21.KLF):
    greedy(_c)


# ---------------------------------------------------------------------- Slater atoms
@obligations("Slater functions", [{"K": 1, "N": 2}, {"K": 2, "N": 1}])
def slater(h):
    s = c23.Sto(h)
    for nm in ("radial_slater_orbital", "derivative_radial_slater_type_orbital"):
        for lab, a, cond in other_shapes(h, s.N, "r"):
            if lab == "another length" or lab.startswith("length"):
                continue
            with h.under(cond):
                h.refused("%s, points: %s" % (nm, lab), lambda: h.call(c23.S + nm, s.a, s.n, a))

