from contracts.gauss import *
from vc.harness import integral as integers

GROUPS = []


def columns(h, s, tag, dv, val=None):
    """dv (N, 2M): column k<M is d/dc_k, column M+k is d/da_k."""
    h.shape(tag + "matrix shape", dv, (s.N, mul(num(2), s.M)))
    r2 = s.r2()
    x, y = sym("cc"), sym("aa")
    for part, cnt, off, fun in (("s", s.ns, Z, s_fun), ("p", s.np, s.ns, p_fun)):
        if cnt is Z:
            continue
        k = h.index("k" + part, cnt)
        pos = add(off, k)
        # the only term of the value that contains (c_pos, a_pos)
        term = mul(x, fun(y, r2, s.norm))
        at = {x: el(s.c, pos), y: el(s.a, pos)}
        h.assume(tm.lt(num(0.0), y)) if s.norm else None
        dc = tm.subst(diff(term, x), at)
        da = tm.subst(diff(term, y), at)
        pos_ok = tm.lt(num(0.0), el(s.a, pos)) if s.norm else tm.TRUE
        with h.under(pos_ok):
            h.eq("%scolumn of a %s-type coefficient" % (tag, part), el(dv, s.i, pos), dc)
            h.eq("%scolumn of a %s-type exponent" % (tag, part), el(dv, s.i, add(s.M, pos)), da)
            h.defined("%scolumns %s" % (tag, part), add(el(dv, s.i, pos), el(dv, s.i, add(s.M, pos))))


def gradient(kind, dims, norm, center=True):
    @group("gradient %s %dD normalize=%s center=%s" % (kind, dims, norm, center), bounds=small(dims, kind))
    def g(h):
        s = Setup(h, kind, dims, norm, center)

        def post(v):
            h.is_true("pair returned", isinstance(v, tuple) and len(v) == 2, repr(v))
            h.shape("value shape", v[0], (s.N,))
            h.eq("value", el(v[0], s.i), s.value())
            columns(h, s, "", v[1])
        h.run("evaluate(deriv)", lambda: h.meth(s.make(), "evaluate", s.c, s.a, deriv=True), post)
    GROUPS.append(g)


for kind in ("s", "p", "sp"):
    for norm in (False, True):
        gradient(kind, 2, norm)
    gradient(kind, 1, True)
    gradient(kind, 1, False, False)


@group("no history", bounds=[{"N": 2, "D": 2, "ns": 2, "np": 1, "ns2": 1, "np2": 2}])
def nohist(h):
    for norm in (False, True):
        s = Setup(h, "sp", 2, norm)
        c2, a2 = h.arr("c2", (s.ns,)), h.arr("a2", (s.ns,))
        h.forall(s.ns, lambda k: tm.lt(num(0.0), el(a2, k)))

        def go():
            o = s.make()
            first = h.meth(o, "evaluate", s.c, s.a, deriv=True)
            h.meth(o, "change_numb_s_and_numb_p", s.ns, Z)
            h.meth(o, "evaluate", c2, a2, deriv=True)
            h.meth(o, "change_numb_s_and_numb_p", s.ns, s.np)
            return first, h.meth(o, "evaluate", s.c, s.a, deriv=True)
        h.run("evaluate", go, lambda v: (columns(h, s, "first: ", v[0][1]), columns(h, s, "second: ", v[1][1])))


GROUPS.append(nohist)


def inplace(norm):
    @group("arguments changed in place normalize=%s" % norm, bounds=[{"N": 2, "D": 2, "ns": 2, "np": 1}])
    def g(h):
        s = Setup(h, "sp", 2, norm)

        def go():
            o = s.make()
            h.inplace(lambda: h.meth(o, "evaluate", s.c, s.a, deriv=True), s.c, s.a, pos=(s.a,) if norm else ())
            return h.meth(o, "evaluate", s.c, s.a, deriv=True)
        h.run("evaluate twice", go, lambda v: columns(h, s, "", v[1]))
    GROUPS.append(g)


inplace(True)
inplace(False)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, "c", "a") for g in GROUPS[:]]
