from contracts.gauss import *
from vc.harness import integral as integers

GROUPS = []
LEVEL = "proof"


class Mol:
    def __init__(self, h, norm):
        self.h, self.norm = h, norm
        self.N, self.D, self.A = h.size("N"), h.size("D"), h.size("A")
        self.pts, self.crd = h.arr("x", (self.N, self.D)), h.arr("X", (self.A, self.D))
        if h.sizes is None:
            self.bas = h.arr("b", (self.A, num(2)), "i")
        else:
            tab = h.sizes["basis"]
            def cnt(ix):
                e = num(0)
                for i, row in enumerate(tab):
                    for j, v in enumerate(row):
                        e = tm.ite(tm.and_(tm.eq(ix[0], num(i)), tm.eq(ix[1], num(j))), num(v), e)
                return e
            self.bas = Arr(Buf(cnt, (self.A, num(2)), "i", "b"))
        h.forall(self.A, lambda k: tm.and_(tm.le(Z, self.b(k, 0)), tm.le(Z, self.b(k, 1)),
                                           tm.lt(Z, self.nb(k))))
        self.M = self.off(self.A)
        self.c, self.a = h.arr("c", (self.M,)), h.arr("a", (self.M,))
        h.forall(self.M, lambda k: tm.lt(num(0.0), el(self.a, k)))
        self.i = h.index("i", self.N)

    def b(self, k, j):
        return el(self.bas, k, num(j))

    def nb(self, k):
        return add(self.b(k, 0), self.b(k, 1))

    def off(self, k):
        return tm.sum_(Z, k, self.nb)

    def r2(self, k, i=None):
        i = self.i if i is None else i
        return tm.sum_(Z, self.D, lambda d: tm.pow_(sub(el(self.pts, i, d), el(self.crd, k, d)), num(2)))

    def value(self, i=None):
        i = self.i if i is None else i
        return tm.sum_(Z, self.A, lambda k: model_value(self.c, self.a, self.off(k), self.b(k, 0), self.b(k, 1),
                                                        self.r2(k, i), self.norm))

    def make(self):
        return self.h.call(MOL, self.pts, self.crd, self.bas, normalize=self.norm)


BOUNDS = [{"N": 2, "D": 3, "A": 1, "basis": [[2, 1]], "q": 0},
          {"N": 1, "D": 2, "A": 2, "basis": [[1, 2], [2, 0]], "q": 1},
          {"N": 1, "D": 2, "A": 3, "basis": [[1, 0], [0, 2], [2, 1]], "q": 1},
          {"N": 1, "D": 2, "A": 3, "basis": [[1, 0], [0, 2], [2, 1]], "q": 2}]


def value(norm, deriv):
    @group("value normalize=%s deriv=%s" % (norm, deriv), bounds=BOUNDS)
    def g(h):
        m = Mol(h, norm)
        atomic_contract(h, norm)
        h.reachable("inputs")

        def post(v):
            if deriv:
                h.is_true("pair returned", isinstance(v, tuple) and len(v) == 2, repr(v))
                v = v[0]
            h.shape("shape", v, (m.N,))
            h.eq("value = sum of the atomic models on their blocks", el(v, m.i), m.value())
        h.run("evaluate", lambda: h.meth(m.make(), "evaluate", m.c, m.a, deriv=deriv), post)
    GROUPS.append(g)


def deriv(norm):
    @group("derivative blocks normalize=%s" % norm, bounds=BOUNDS)
    def g(h):
        m = Mol(h, norm)
        atomic_contract(h, norm)
        q = h.index("q", m.A)
        h.it.ctx.select_hints.append(q)
        j = h.index("j", m.nb(q))
        iss = tm.lt(j, m.b(q, 0))

        def post(v):
            dv = v[1]
            h.shape("matrix shape", dv, (m.N, mul(num(2), m.M)))
            pos = add(m.off(q), j)
            for part, cond in (("s", iss), ("p", tm.not_(iss))):
                with h.under(cond):
                    if h.ctx.inconsistent():
                        continue
                    dc, da = dfun(part, el(m.c, pos), el(m.a, pos), m.r2(q), norm)
                    h.eq("%s-type coefficient column in its block" % part, el(dv, m.i, pos), dc)
                    h.eq("%s-type exponent column in its block" % part, el(dv, m.i, add(m.M, pos)), da)
        h.run("evaluate", lambda: h.meth(m.make(), "evaluate", m.c, m.a, deriv=True), post)
    GROUPS.append(g)


for norm in (False, True):
    value(norm, False)
    value(norm, True)
    deriv(norm)


def inplace(norm):
    @group("arguments changed in place normalize=%s" % norm, bounds=BOUNDS)
    def g(h):
        m = Mol(h, norm)
        atomic_contract(h, norm)

        def go():
            o = m.make()
            h.inplace(lambda: h.meth(o, "evaluate", m.c, m.a, deriv=True), m.c, m.a, pos=(m.a,))
            return h.meth(o, "evaluate", m.c, m.a), h.meth(o, "evaluate", m.c, m.a, deriv=True)[0]
        h.run("evaluate twice", go, lambda v: [h.eq("value for the present contents", el(x, m.i), m.value()) for x in v])
    GROUPS.append(g)


inplace(True)


@group("published quantities", bounds=BOUNDS)
def published(h):
    m = Mol(h, False)
    q = h.index("q", m.A)
    j = h.index("j", m.nb(q))
    h.it.ctx.select_hints.append(q)

    def post(v):
        nb, na, rad, pf = v
        h.eq("nbasis = sum of all counts", nb, m.M)
        h.eq("natoms", na, m.A)
        h.shape("radii shape", rad, (m.A, m.N))
        h.eq("radii rows are the distances to the centres", tm.pow_(el(rad, q, m.i), num(2)), m.r2(q))
        h.le("radii >= 0", R0, el(rad, q, m.i))
        h.shape("prefactor shape", pf, (m.M,))
        h.eq("prefactor list is the concatenation", el(pf, add(m.off(q), j)),
             tm.ite(tm.lt(j, m.b(q, 0)), frc(3, 2), frc(5, 2)))
    h.run("attributes", lambda: (lambda o: [h.attr(o, n) for n in ("nbasis", "natoms", "radii", "prefactor")])(m.make()), post)


GROUPS.append(published)


@group("centre look-up", bounds=BOUNDS)
def lookup(h):
    m = Mol(h, False)
    q = h.index("q", m.A)
    j = h.index("j", m.nb(q))
    h.it.ctx.select_hints.append(q)
    h.run("assign_basis_to_center", lambda: h.meth(m.make(), "assign_basis_to_center", add(m.off(q), j)),
          lambda v: h.eq("the centre whose block contains the index", v, q))
    e = tm.sym("e", I)
    h.assume(tm.le(m.M, e))
    h.refused("index past the end is refused", lambda: h.meth(m.make(), "assign_basis_to_center", e))


GROUPS.append(lookup)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, "c", "a") for g in GROUPS[:]]
GROUPS += [integers(g, "x", "X", label=", integer positions") for g in GROUPS[:len(GROUPS) // 2]]
