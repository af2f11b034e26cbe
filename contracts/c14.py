"""One fixed-point step.  The update formulas are proved on _update_params for any grid and any model that satisfies
the contract of evaluate; charge conservation and positivity are consequences proved from the formulas and from two
facts proved on the real models (value = sum of coefficient times derivative column; columns are not negative)."""
from contracts.fitbase import *
from vc.harness import integral as integers

GROUPS = []
BD1 = [{"N": 2, "ns": 1, "np": 1}, {"N": 3, "ns": 2, "np": 0}]
BDM = [{"N": 2, "A": 2, "basis": [[1, 0], [1, 1]]}]
BDO = [{"N": 2, "basis": [[1, 1]]}]


def ratio(s, k, tag="0"):
    g = s.g(tag, k)
    return tm.ite(tm.le(g, s.mask), num(1.0), div(el(s.f, k), g))


def problem(h, s, T):
    h.assume(tm.not_(tm.eq(s.I(lambda k: el(s.f, k)), ZR)))
    if T is not None:
        h.assume(tm.not_(tm.eq(T, ZR)))
    kw = dict(mask_value=s.mask, spherical=s.spherical)
    if T is not None:
        kw["integral_dens"] = T
    return h.call(FPI, s.make_grid(), s.f, s.model, **kw)


def pre(s, j):
    """Prefactor of function j."""
    if s.mol:
        q, l = s.block
        return tm.ite(tm.lt(l, s.b(q, 0)), num(1.5), num(2.5))
    return tm.ite(tm.lt(j, s.ns), num(1.5), num(2.5))


class Spec:
    def __init__(self, s, T):
        self.s = s
        self.If = s.I(lambda k: el(s.f, k))
        self.T = self.If if T is None else T
        self.L = div(self.If, self.T)

    def a1(self, j):
        s = self.s
        return s.I(lambda k: mul(ratio(s, k), s.db("0", k, j)))

    def a2(self, j):
        s = self.s
        return s.I(lambda k: mul(ratio(s, k), s.db("0", k, j), s.r2(k, j)))


def setup(h, dims, mol, spherical, T="T"):
    s = Fit(h, dims, mol, spherical)
    s.model = s.make_model()
    T = h.real("T") if T else None
    return s, T


def block_index(h, s):
    """An arbitrary function: (index, assumptions tying it to its centre)."""
    if not s.mol:
        return h.index("j", s.M)
    q = Z if s.mol == "one" else h.index("q", s.A)
    l = h.index("l", s.nb(q))
    j = add(s.off(q), l)
    h.ctx.select_hints.append(q)
    h.assume(tm.and_(tm.le(Z, j), tm.lt(j, s.M)))
    s.owner(j, q)
    s.block = (q, l)
    return j


def update(dims, mol, spherical, upc, upe, target):
    nm = "update %s%s coeffs=%s expons=%s%s" % ("molecule (%s)" % mol if mol else "%dD atom" % dims, " spherical" if spherical else "", upc, upe,
                                               "" if target else " default target")

    @group(nm, bounds=BD1 if not mol else BDO if mol == 'one' else BDM)
    def g(h):
        s, T = setup(h, dims, mol, spherical, target)
        o = problem(h, s, T)
        c, e = s.params()
        s.model_nonneg("0")
        S = Spec(s, T)
        j = block_index(h, s)

        def post(v):
            v = h.it.concrete_items(v)
            h.is_true("two parameter vectors", len(v) == 2)
            for x in v:
                h.shape("length", x, (s.M,))
            if upc:
                h.eq("coefficient rule", el(v[0], j), div(mul(el(c, j), S.a1(j)), S.L))
            else:
                h.eq("coefficients unchanged", el(v[0], j), el(c, j))
            if upe:
                q = div(mul(pre(s, j), S.a1(j)), S.a2(j))
                h.eq("exponent rule", el(v[1], j), q)
            else:
                h.eq("exponents unchanged", el(v[1], j), el(e, j))
        h.run("_update_params", lambda: h.meth(o, "_update_params", c, e, update_coeffs=upc, update_expons=upe), post)
        # no history
        c2, e2 = s.params("c2", "e2", "1")
        s.model_nonneg("1")

        def again():
            h.meth(o, "_update_params", c2, e2, update_coeffs=upc, update_expons=upe)
            h.inplace(lambda: h.meth(o, "_update_params", c, e, update_coeffs=upc, update_expons=upe), c, e)
            h.meth(o, "_update_params", c, e2, update_coeffs=not upc or upe, update_expons=upc)
            return h.meth(o, "_update_params", c, e, update_coeffs=upc, update_expons=upe)
        h.run("_update_params after other steps", again, post)
    GROUPS.append(g)


for _a in ((1, False, True), (1, False, False), (3, False, False), (3, "one", False), (3, "many", False)):
    for _u in ((True, False), (False, True), (True, True)):
        update(*_a, *_u, _u != (True, False))


# ------------------------------------------------------------------ facts about the real models
from contracts import gauss as ga           # noqa: E402
from contracts.c03 import Mol, BOUNDS as MB    # noqa: E402


def homogeneous(kind, dims):
    @group("model is the coefficient-weighted sum of its coefficient columns: %s %dD atom" % (kind, dims), bounds=ga.small(dims, kind))
    def g(h):
        s = ga.Setup(h, kind, dims, True)

        def post(v):
            h.eq("weighted sum of columns", tm.sum_(Z, s.M, lambda k: mul(el(s.c, k), el(v[1], s.i, k))), el(v[0], s.i))
        h.run("evaluate", lambda: h.meth(s.make(), "evaluate", s.c, s.a, deriv=True), post)
    GROUPS.append(g)


for _k in ("s", "p", "sp"):
    homogeneous(_k, 2)
homogeneous("sp", 1)


@group("model is the coefficient-weighted sum of its coefficient columns: molecule", bounds=MB)
def hom_mol(h):
    m = Mol(h, True)
    ga.atomic_contract(h, True)
    q = h.index("q", m.A)
    h.it.ctx.select_hints.append(q)

    def post(v):
        o = m.off(q)
        part = lambda n0, n1: tm.sum_(Z, n1, lambda l: mul(el(m.c, add(o, n0, l)), el(v[1], m.i, add(o, n0, l))))
        h.eq("value = sum of the atomic models", el(v[0], m.i), m.value())
        h.eq("columns of one centre weighted with its coefficients give its atomic model",
             add(part(Z, m.b(q, 0)), part(m.b(q, 0), m.b(q, 1))),
             ga.model_value(m.c, m.a, o, m.b(q, 0), m.b(q, 1), m.r2(q), True))
    h.run("evaluate", lambda: h.meth(m.make(), "evaluate", m.c, m.a, deriv=True), post)


GROUPS.append(hom_mol)


# ------------------------------------------------------------------ consequences
def charge(spherical):
    @group("charge conservation%s" % (" spherical" if spherical else ""))
    def g(h):
        s = Fit(h, 1, False, spherical)
        s.M = h.size("M")
        T = h.real("T")
        S = Spec(s, T)
        h.assume(tm.not_(tm.eq(S.If, ZR)))
        h.assume(tm.not_(tm.eq(T, ZR)))
        ca, ea = s.params()
        c = lambda j: el(ca, j)
        mix = lambda k: tm.sum_(Z, s.M, lambda j: mul(c(j), s.db("0", k, j)))
        new = tm.sum_(Z, s.M, lambda j: div(mul(c(j), S.a1(j)), S.L))
        h.eq("sums exchanged", new, div(s.I(lambda k: mul(ratio(s, k), mix(k))), S.L))
        # model above the mask, and weighted sum of its columns
        k = h.index("k", s.N)
        h.assume(tm.lt(s.mask, s.g("0", k)))
        mk = sym("mix_k")
        h.assume(tm.eq(mk, s.g("0", k)))
        h.eq("ratio times model is the density", mul(ratio(s, k), mk), el(s.f, k))
        h.eq("new coefficients sum to the target", div(s.I(lambda k: el(s.f, k)), S.L), T)
    GROUPS.append(g)


charge(False)
charge(True)


@group("positivity")
def positivity(h):
    """Summands are not negative and one is positive, so the integrals are positive; then so are the updates."""
    s = Fit(h, 1, False, False)
    s.M = h.size("M")
    k, j = h.index("k", s.N), h.index("j", s.M)
    wk, db, r2 = h.real("wk", nonneg=True), h.real("db", nonneg=True), h.real("r2", nonneg=True)
    h.assume(tm.le(ZR, s.g("0", k)))
    fk = el(s.f, k)
    with h.under(tm.le(ZR, fk)):
        for nm, t in (("coefficient", mul(wk, ratio(s, k), db)), ("exponent", mul(wk, ratio(s, k), db, r2)), ("density", mul(wk, fk))):
            h.le("%s integrand is not negative" % nm, ZR, t)
    with h.under(tm.lt(ZR, fk), tm.lt(ZR, wk), tm.lt(ZR, db), tm.lt(ZR, r2)):
        for nm, t in (("coefficient", mul(wk, ratio(s, k), db)), ("exponent", mul(wk, ratio(s, k), db, r2)), ("density", mul(wk, fk))):
            h.lt("%s integrand is positive at a point of positive weight and density off the centre" % nm, ZR, t)
    # the columns proved equal to the basis functions (C02, C03) have the right sign
    al = h.real("al", pos=True)
    for part in ("s", "p"):
        col = ga.dfun(part, h.real("cc0"), al, r2, True)[0]
        h.le("%s-type columns are not negative" % part, ZR, col)
        with h.under(tm.lt(ZR, r2)):
            h.lt("%s-type columns are positive off the centre" % part, ZR, col)
    # induction: a partial sum of non-negative terms stays positive once one term is
    S, t = h.real("S"), h.real("t", nonneg=True)
    with h.under(tm.le(ZR, S)):
        h.le("partial sums are not negative", ZR, add(S, t))
        with h.under(tm.lt(ZR, t)):
            h.lt("a positive term makes the sum positive", ZR, add(S, t))
    with h.under(tm.lt(ZR, S)):
        h.lt("and it stays positive", ZR, add(S, t))
    a1, a2, c, L, p = (h.real(n, pos=True) for n in ("a1", "a2", "c", "L", "p"))
    h.lt("new coefficient positive", ZR, div(mul(c, a1), L))
    h.lt("new exponent positive", ZR, div(mul(p, a1), a2))


GROUPS.append(positivity)


def onestep(dims, spherical, upc, upe):
    @group("one iteration of run %dD coeffs=%s expons=%s" % (dims, upc, upe), bounds=BD1)
    def g(h):
        s, T = setup(h, dims, False, spherical)
        o = problem(h, s, T)
        c, e = s.params()
        s.model_nonneg("0")
        S = Spec(s, T)
        j = h.index("j", s.M)
        s.positive_others = True

        def post(v):
            c1, e1 = v
            h.eq("coefficients", el(c1, j), div(mul(el(c, j), S.a1(j)), S.L) if upc else el(c, j))
            h.eq("exponents", el(e1, j), div(mul(pre(s, j), S.a1(j)), S.a2(j)) if upe else el(e, j))
        h.run("run(maxiter=1)", lambda: (lambda r: (h.it.getitem(r, "coeffs"), h.it.getitem(r, "exps")))(
            h.meth(o, "run", c, e, opt_coeffs=upc, opt_expons=upe, maxiter=1)), post)
    GROUPS.append(g)


onestep(1, True, True, False)
onestep(3, False, True, True)
onestep(3, False, False, True)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n.split(), label=", integer " + n) for g in GROUPS[:] for n in ('f', 'c e')]
