"""Frame conditions: arrays given to any entry point are in its read set only, and results are made of new storage.
Array storage is modelled with sharing (a slice, reshape or transpose is a view of the same storage), so a write through
any alias of an argument is a write to the argument.  Calls are checked against the callee's contract where that callee has
its own frame obligation here."""
from contracts.gauss import *
from contracts.fitbase import Fit, FPI, SCI, ZR
from contracts import c03, c11, c16, c17, c18, c19, c21, c22, c23, atoms
from vc.values import PDict, PObj, PFunc, MArr, ListBlock

GROUPS = []
LEVEL_NOTE = ("the run of scipy.optimize.minimize and nnls is outside: their contracts promise not to write their arguments; "
              "merging of redundancies is bounded in the number of functions (up to 5)")
ASSUMPTIONS = ["numpy functions share storage exactly as modelled (views of slices, reshape, ravel, transpose, asarray; sampled by the runtime contracts)"]


def storage(h, v, seen=None):
    """Buffers reachable from a result."""
    seen = {} if seen is None else seen
    if isinstance(v, Arr):
        seen[id(v.buf)] = v.buf
    elif isinstance(v, MArr):
        storage(h, v.data, seen)
        storage(h, v.mask, seen)
    elif isinstance(v, (tuple, list)):
        for x in v:
            storage(h, x, seen)
    elif isinstance(v, PDict):
        for x in v.d.values() if getattr(v, "d", None) is not None else []:
            storage(h, x, seen)
    elif isinstance(v, PList):
        for x in v.items:
            storage(h, x, seen) if not isinstance(x, ListBlock) else None
        if v.head is not None:
            t = tm.fresh("t", I)
            h.ctx.push()
            try:
                h.ctx.assume(tm.and_(tm.le(Z, t), tm.lt(t, v.head[0])))
                if not h.ctx.inconsistent():
                    storage(h, v.head[1](t), seen)
            finally:
                h.ctx.pop()
    return seen


def fresh(h, what, v, params, allow=()):
    got = storage(h, v)
    for p in params:
        if p.buf in [a.buf for a in allow]:
            continue
        h.is_true("%s: result does not share storage with the argument %s" % (what, p.buf.name), id(p.buf) not in got,
                  "the result is (a view of) the argument")


def frame(h, name, fn, post):
    """Every path of fn() that returns: arguments unchanged, then post; refusals are the business of C29."""
    if not h.run(name, fn, post, raises=lambda o: None)[0]:
        raise Unsupported("%s: no path returns" % name)


def entry(name, bounds, timeout=150, unbounded=True):
    def deco(fn):
        def g(h):
            try:
                fn(h)
            except (ObligationFailed, PyRaise) as e:
                raise Unsupported(str(e))
            # the contracts of callees are obligations of other properties
            h.obl[:] = [o for o in h.obl if o[0].endswith(": frame") or "share storage" in o[0]]
        GROUPS.append(group(name, bounds=bounds, timeout=timeout, unbounded=unbounded)(g))
        return fn
    return deco


def atomic(kind, dims, norm):
    @entry("atomic model %s %dD normalize=%s" % (kind, dims, norm), small(dims, kind))
    def g(h):
        s = Setup(h, kind, dims, norm)
        for d in (False, True):
            frame(h, "evaluate deriv=%s" % d, lambda: h.meth(s.make(), "evaluate", s.c, s.a, deriv=d),
                  lambda v: fresh(h, "evaluate", v, [s.c, s.a]))

        def change():
            o = s.make()
            h.meth(o, "change_numb_s_and_numb_p", s.ns, s.np)
            return [h.attr(o, n) for n in ("radii", "num_s", "num_p", "nbasis", "natoms", "prefactor")]
        frame(h, "other queries", change, None)


for _k, _d, _n in (("sp", 2, True), ("sp", 2, False), ("s", 1, True), ("p", 1, False), ("s", 2, False), ("p", 2, True)):
    atomic(_k, _d, _n)


@entry("molecular model", c03.BOUNDS)
def molecular(h):
    m = c03.Mol(h, True)
    atomic_contract(h, True)
    for d in (False, True):
        frame(h, "evaluate deriv=%s" % d, lambda: h.meth(m.make(), "evaluate", m.c, m.a, deriv=d),
              lambda v: fresh(h, "evaluate", v, [m.c, m.a]))
    frame(h, "other queries", lambda: [h.attr(m.make(), n) for n in ("radii", "nbasis", "natoms", "prefactor")], None)


@entry("measures", [{"N": 2}, {"N": 3}])
def measures(h):
    N = h.size("N")
    f, g = h.arr("f", (N,)), h.arr("g", (N,))
    h.forall(N, lambda k: tm.le(ZR, el(f, k)))
    mask, al = h.real("mask", nonneg=True), h.real("alpha", pos=True)
    h.assume(tm.lt(num(0.001), tm.abs_(sub(al, num(1.0)))))
    for nm, kw in (("SquaredDifference", {}), ("KLDivergence", {"mask_value": mask}), ("TsallisDivergence", {"alpha": al, "mask_value": mask})):
        for d in (False, True):
            frame(h, "%s deriv=%s" % (nm, d), lambda: h.meth(h.call("bfit.measure." + nm, **kw), "evaluate", f, g, deriv=d), None)


@entry("radial grids", [{"n": 1}, {"n": 3}])
def radial(h):
    n = h.size("n")
    x, y = h.arr("x", (n,)), h.arr("y", (n,))
    frame(h, "integrate", lambda: h.meth(h.call("bfit.grid._BaseRadialGrid", x), "integrate", y), None)
    a, b = h.real("a"), h.real("b")
    h.assume(tm.lt(a, b))
    q = h.arr("q", (n,))
    frame(h, "Clenshaw grid with extra points", lambda: h.call("bfit.grid.ClenshawRadialGrid", n, n, n, q), None)
    frame(h, "uniform grid", lambda: h.meth(h.call("bfit.grid.UniformRadialGrid", n, a, b), "integrate", y), None)


@entry("cubic grid", c11.BD)
def cubic(h):
    c = c11.Cub(h)
    y = h.arr("y", (c.N,))
    sh = c.shape_value("array")
    sh.buf.frozen = True
    frame(h, "construct and integrate", lambda: h.meth(h.call("bfit.grid.CubicGrid", c.o, c.ax, sh), "integrate", y), None)


@entry("cubic grid of a molecule", [{"M": 1}, {"M": 2}])
def box(h):
    M = h.size("M")
    zs, X = h.arr("z", (M,)), h.arr("X", (M, num(3)))
    h.forall(M, lambda k: tm.lt(R0, el(zs, k)))
    h.it.contracts[("bfit.grid", "CubicGrid.__init__")] = lambda it, a, k: None
    for r in (False, True):
        frame(h, "rotate=%s" % r, lambda: h.meth(h.get("bfit.grid.CubicGrid"), "from_molecule", zs, X, rotate=r), None)


@entry("Slater functions", c23.BD)
def slater(h):
    s = c23.Sto(h)
    for nm in ("radial_slater_orbital", "derivative_radial_slater_type_orbital"):
        frame(h, nm, lambda: h.call(c23.S + nm, s.a, s.n, s.r), None)


@entry("atomic densities", [{"K": 1, "N": 2}, {"K": 2, "N": 1}])
def densities(h):
    a = atoms.Atom(h)
    for nm, arg in (("phi_matrix", ()), ("phi_matrix", (True,)), ("atomic_density", ("total",)), ("atomic_density", ("core",)),
                    ("atomic_density", ("valence",)), ("positive_definite_kinetic_energy", ()), ("derivative_density", ())):
        frame(h, "%s%s" % (nm, arg), lambda: h.meth(a.make(), nm, a.r, *arg), None)


def fits(cls, dims, mol, spherical):
    @entry("%s %s%dD spherical=%s" % (cls.split(".")[-1], "molecule " if mol else "", dims, spherical),
           [{"N": 2, "ns": 1, "np": 1}] if not mol else [{"N": 2, "A": 2, "basis": ((1, 0), (1, 1))}])
    def g(h):
        if cls == SCI:
            p = c17.Opt(h, "both", dims, spherical, True, mol)
            s, o, c, e = p.s, p.o, p.c, p.e
        else:
            s = Fit(h, dims, mol, spherical)
            s.make_model()
            c, e = s.params(pos=True)
            h.assume(tm.not_(tm.eq(s.I(lambda k: el(s.f, k)), ZR)))
            s.model_nonneg("0", s.mask)
        y = h.arr("y", (s.N,))

        def obj():
            if cls == SCI:
                kw = {"measure": p.meas, "weights": p.wt}
            else:
                kw = {}
            m = h.call("bfit.model.MolecularGaussianDensity", s.x, s.X, s.bas, normalize=True) if mol else h.call(
                ATOM, s.x, s.cen, num_s=s.ns, num_p=s.np_, normalize=True)
            return h.call(cls, s.make_grid(), s.f, m, spherical=spherical, mask_value=s.mask, **kw)
        frame(h, "integrate", lambda: h.meth(obj(), "integrate", y), None)
        frame(h, "goodness_of_fit", lambda: h.meth(obj(), "goodness_of_fit", c, e), lambda v: fresh(h, "report", v, [c, e]))
        if cls == SCI:
            def measure(it, a, k):
                return (h.arr("k!", (s.N,)), h.arr("dk!", (s.N,))) if it.truthy(dict(zip(["s", "d", "m", "deriv"], a), **k).get("deriv", False)) else h.arr("k!", (s.N,))
            h.it.contracts[("bfit.measure", "SquaredDifference.evaluate")] = measure
            for q, args in ((p.x, ()), (c, ("fixed_expons", e)), (e, ("fixed_coeffs", c))):
                for nm in ("func", "const_norm", "evaluate_model"):
                    frame(h, "%s %s" % (nm, args[:1]), lambda: h.meth(obj(), nm, q, *args), lambda v: fresh(h, nm, v, [p.x, c, e]))
            return
        for uc, ue in ((True, True), (True, False), (False, True)):
            frame(h, "step coeffs=%s expons=%s" % (uc, ue), lambda: h.meth(obj(), "_update_params", c, e, uc, ue),
                  lambda v: fresh(h, "step", v, [c, e], allow=([] if uc else [c]) + ([] if ue else [e])))
    return g


for _c in (FPI, SCI):
    fits(_c, 1, False, True)
    fits(_c, 3, False, False)
    fits(_c, 3, True, False)


def fixed_point(opt):
    @entry("fixed-point run coeffs=%s expons=%s" % opt, [{"N": 2, "ns": 1, "np": 1, "maxiter": m} for m in (1, 2)])
    def g(h):
        r = c16.Run(h, opt)
        h.assume(tm.le(ONE, r.maxiter))
        def post(v):
            fresh(h, "run", v, [r.c0, r.e0], allow=([] if opt[0] else [r.c0]) + ([] if opt[1] else [r.e0]))
        frame(h, "run", lambda: h.meth(r.o, "run", r.c0, r.e0, opt_coeffs=opt[0], opt_expons=opt[1], maxiter=Num(r.maxiter),
                                    c_threshold=Num(tv(r.ct)), e_threshold=Num(tv(r.et)), d_threshold=Num(tv(r.dt))), post)


for _o in ((True, True), (True, False), (False, True)):
    fixed_point(_o)


def scipy_run(mode, method):
    @entry("run of the optimiser %s %s" % (mode, method), c18.BD)
    def g(h):
        p = c17.Opt(h, mode, 1, False, True, method=method)
        pr = c18.Problem(h, p, method, True, h.real("tol", pos=True), tm.sym("maxiter", I), True)
        h.it.contracts[("bfit.fit", "_BaseFit.goodness_of_fit")] = lambda it, a, k: PList([Num(app("rep", num(i)), True) for i in range(5)])
        oc, oe = mode != "expons", mode != "coeffs"
        frame(h, "run", lambda: h.meth(p.o, "run", p.c, p.e, opt_coeffs=oc, opt_expons=oe, tol=Num(tv(pr.tol)), maxiter=Num(pr.maxiter)),
              lambda v: fresh(h, "run", v, [p.c, p.e], allow=([] if oc else [p.c]) + ([] if oe else [p.e])))


for _m in ("both", "coeffs", "expons"):
    for _k in ("slsqp", "trust-constr"):
        scipy_run(_m, _k)


@entry("candidates pick-one", [{"n": k} for k in (1, 2, 3)])
def one(h):
    s = c19.Set(h)
    frame(h, "get_next_choices", lambda: h.call(c19.MOD + "get_next_choices", s.f, s.c, s.e, s.v),
          lambda v: fresh(h, "candidates", v, [s.c, s.e]))


def lists(nm, sizes):
    @entry("candidates %s" % nm, sizes, unbounded=False)
    def g(h):
        s = c19.Set(h, h.sizes["n"])
        frame(h, nm, lambda: h.call(c19.MOD + nm, s.f, s.c, s.e, s.v), lambda v: fresh(h, "candidates", v, [s.c, s.e]))


lists("get_two_next_choices", [{"n": k} for k in (1, 2, 3, 4)])
lists("pick_two_lose_one", [{"n": k} for k in (1, 2, 3, 4)])


@entry("merging", [{"M": m} for m in (1, 2, 3, 4, 5)], unbounded=False, timeout=300)
def merging(h):
    M = h.sizes["M"]
    c, e, eps = h.arr("c", (num(M),)), h.arr("e", (num(M),)), h.real("eps", pos=True)
    frame(h, "remove_redundancies", lambda: h.call("bfit.greedy.remove_redundancies", c, e, eps), lambda v: fresh(h, "merged", v, [c, e]))


def strategy(cls, spherical):
    @entry("functions of %s spherical=%s" % (cls.split(".")[-1], spherical), c21.PB)
    def g(h):
        w = c21.Strat(h, cls, spherical)
        w.s.model_nonneg("0")
        rc, re_ = h.arr("rc", (w.M,)), h.arr("re", (w.M,))
        h.it.ghost["hook:nnls"] = lambda it, a, k: (h.arr("nn", (w.M,)), Num(tm.sym("residual"), True))
        for c in ("KLDivergenceFPI", "ScipyFit"):
            h.it.contracts[("bfit.fit", c + ".run")] = lambda it, a, k: PDict({"coeffs": rc, "exps": re_, "fun": Num(tm.sym("fun"), True), "success": True})
        frame(h, "eval_obj_function", lambda: h.meth(w.make(), "eval_obj_function", w.p), None)
        for local in (False, True):
            frame(h, "get_optimization_routine local=%s" % local, lambda: h.meth(w.make(), "get_optimization_routine", w.p, local=local),
                  lambda v: fresh(h, "inner optimisation", v, [w.p]))
        for c in ("_BaseFit", "KLDivergenceFPI", "ScipyFit"):
            h.it.contracts[("bfit.fit", c + ".goodness_of_fit")] = lambda it, a, k: PList([Num(app("rep", num(i)), True) for i in range(5)])

        def store():
            o = w.make()
            h.meth(o, "store_errors", w.p)
            return h.attr(o, "err_arr")
        frame(h, "store_errors", store, lambda v: fresh(h, "record", v, [w.p]))


for _c in (c21.LSQ, c21.KLF):
    for _s in (False, True):
        strategy(_c, _s)


@entry("greedy starts", c22.BD)
def starts(h):
    d = c22.Data(h)
    If = d.I(lambda k: el(d.f, k), False)
    r4 = tm.sum_(Z, d.N, lambda k: mul(el(d.w, k), el(d.f, k), tm.pow_(el(d.x, k), num(4))))
    h.assume(tm.not_(tm.eq(If, ZR)))
    h.assume(tm.not_(tm.eq(r4, ZR)))
    frame(h, "KL", lambda: h.meth(h.call(c22.MOD + "GreedyKLFPI", d.grid, d.f), "get_best_one_function_solution"), None)

    def objective(it, args, kw):
        return Num(tm.fresh("obj", R), True)
    h.it.contracts[("bfit.greedy", "GreedyStrategy.eval_obj_function")] = objective
    frame(h, "least squares", lambda: h.meth(h.call(c22.MOD + "GreedyLeastSquares", d.grid, d.f), "get_best_one_function_solution"), None)
