from contracts.gauss import *
from vc.harness import integral as integers

GROUPS = []


def values(kind, dims, norm, center):
    @group("value %s %dD normalize=%s center=%s" % (kind, dims, norm, center), bounds=small(dims, kind))
    def g(h):
        s = Setup(h, kind, dims, norm, center)
        h.reachable("inputs")

        def post(v):
            h.shape("shape", v, (s.N,))
            h.eq("value = sum of the documented Gaussians", el(v, s.i), s.value())
            h.defined("value", el(v, s.i))
        h.run("evaluate", lambda: h.meth(s.make(), "evaluate", s.c, s.a), post)

        def post2(v):
            h.is_true("pair returned", isinstance(v, tuple) and len(v) == 2, repr(v))
            post(v[0])
        h.run("evaluate(deriv)", lambda: h.meth(s.make(), "evaluate", s.c, s.a, deriv=True), post2)
        if norm is False and kind == "s":
            # documented defaults: one s-type function and no normalisation
            h.run("published quantities", lambda: (lambda o: [h.attr(o, n) for n in
                                                             ("num_s", "num_p", "nbasis", "natoms", "radii")])(s.make()),
                  lambda v: (h.eq("num_s", v[0], s.ns), h.eq("num_p", v[1], s.np), h.eq("nbasis", v[2], s.M),
                             h.eq("natoms", v[3], ONE), h.shape("radii shape", v[4], (s.N,)),
                             h.eq("radii = Euclidean distance", tm.pow_(el(v[4], s.i), num(2)), s.r2()),
                             h.le("radii >= 0", num(0.0), el(v[4], s.i))))
    GROUPS.append(g)


for kind in ("s", "p", "sp"):
    for norm in (False, True):
        values(kind, 2, norm, True)
    values(kind, 1, True, True)
    values(kind, 1, False, False)
values("sp", 2, True, False)
values("sp", 1, True, False)


def inplace(kind, norm):
    @group("arguments changed in place: %s normalize=%s" % (kind, norm), bounds=small(2, kind))
    def g(h):
        s = Setup(h, kind, 2, norm)

        def go():
            o = s.make()
            out = []
            for d1 in (False, True):
                h.inplace(lambda: h.meth(o, "evaluate", s.c, s.a, deriv=d1), s.c, s.a, pos=(s.a,) if norm else ())
                out += [h.meth(o, "evaluate", s.c, s.a), h.meth(o, "evaluate", s.c, s.a, deriv=True)[0]]
            return out
        h.run("evaluate twice", go, lambda v: [h.eq("value for the present contents", el(x, s.i), s.value()) for x in v])
    GROUPS.append(g)


for kind in ("s", "p", "sp"):
    inplace(kind, kind != "sp")


def history(kind, other):
    @group("no history: %s after %s" % (kind, other), bounds=[{"N": 2, "D": 2, "ns": 2, "np": 1, "ns2": 1, "np2": 2}])
    def g(h):
        for norm in (False, True):
            s = Setup(h, kind, 2, norm)
            ns2 = h.size("ns2") if "s" in other else Z
            np2 = h.size("np2") if "p" in other else Z
            M2 = add(ns2, np2)
            c2, a2 = h.arr("c2", (M2,)), h.arr("a2", (M2,))
            h.forall(M2, lambda k: tm.lt(num(0.0), el(a2, k)))

            def go():
                o = s.make()
                # earlier evaluations with other counts, then the counts changed back
                h.meth(o, "evaluate", s.c, s.a, deriv=True)
                h.meth(o, "change_numb_s_and_numb_p", ns2, np2)
                v2 = h.meth(o, "evaluate", c2, a2, deriv=True)
                n2 = h.attr(o, "nbasis")
                h.meth(o, "change_numb_s_and_numb_p", s.ns, s.np)
                return v2, n2, h.meth(o, "evaluate", s.c, s.a), h.meth(o, "evaluate", s.c, s.a, deriv=True)

            def post(v):
                v2, n2, v3, v4 = v
                h.eq("count after change", n2, M2)
                h.eq("value after change", el(v2[0], s.i), model_value(c2, a2, Z, ns2, np2, s.r2(), norm))
                h.eq("value after changing back", el(v3, s.i), s.value())
                h.eq("value after changing back (deriv)", el(v4[0], s.i), s.value())
            h.run("evaluate after change", go, post)
    GROUPS.append(g)


history("sp", "s")
history("s", "sp")
history("p", "sp")


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, "c", "a") for g in GROUPS[:]]
