from contracts.common import *

GROUPS = []
ASSUMPTIONS = ["np.sort returns the ascending rearrangement of its argument (assumed contract)"]
UNI, CLE = "bfit.grid.UniformRadialGrid", "bfit.grid.ClenshawRadialGrid"


@group("uniform grid", bounds=[{"n": 1}, {"n": 2}, {"n": 5}])
def uniform(h):
    n = h.size("n")
    a, b = h.real("a"), h.real("b")
    h.assume(tm.lt(a, b))
    i = h.index("i", n)
    h.reachable("inputs")
    spec = lambda lo, hi: tm.ite(tm.eq(n, ONE), lo, add(lo, mul(i, div(sub(hi, lo), sub(n, ONE)))))

    def post(lo, hi, tag):
        def f(v):
            p, ln = v
            h.shape(tag + "shape", p, (n,))
            h.eq(tag + "points are a + i(b-a)/(n-1)", el(p, i), spec(lo, hi))
            h.eq(tag + "len", ln, n)
        return f
    obs = lambda o: (h.attr(o, "points"), h.len(o))
    h.run("arguments", lambda: obs(h.call(UNI, n, a, b)), post(a, b, ""))
    h.run("keywords", lambda: obs(h.call(UNI, num_pts=n, min_radii=a, max_radii=b)), post(a, b, "keywords: "))
    h.run("defaults", lambda: obs(h.call(UNI, n)), post(num(0.0), num(100.0), "defaults: "))


GROUPS.append(uniform)


def clenshaw(origin, extra):
    @group("Clenshaw grid origin=%s extra=%s" % (origin, extra),
           bounds=[{"m": 3, "n": 2, "e": 2}, {"m": 1, "n": 1, "e": 1}, {"m": 0, "n": 3, "e": 1}])
    def g(h):
        m, n, e = h.size("m", 0), h.size("n", 0), h.size("e", 1)
        zat = h.size("Z")
        h.assume(tm.le(ONE, zat))
        ex = h.arr("x", (e,)) if extra else None
        if extra in (False, "empty"):
            e = Z
            h.assume(tm.lt(Z, add(m, n)))
        phi = lambda x: app("phi", x)
        first = Z if origin else ONE
        core = lambda p: div(sub(num(1.0), tm.cos(div(mul(PI, add(p, first)), mul(num(2), m)))), mul(num(2), zat))
        diff = lambda p: mul(num(25.0), sub(num(1.0), tm.cos(div(mul(PI, add(p, ONE)), mul(num(2), n)))))
        spec = add(tm.sum_(Z, m, lambda p: phi(core(p))), tm.sum_(Z, n, lambda p: phi(diff(p))))
        if extra in ("array", "list"):
            spec = add(spec, tm.sum_(Z, e, lambda k: phi(el(ex, k))))
        total = add(m, n, e)
        k = h.index("k", total)

        def post(v):
            p, ln, at = v
            h.shape("shape", p, (total,))
            h.eq("len", ln, total)
            h.eq("atomic number", at, zat)
            with h.under(tm.le(ONE, k)):
                h.le("ascending", el(p, sub(k, ONE)), el(p, k))
            fn = lambda j: el(p, j)
            t = fn(k)
            if t.op == "app" and t.args[0] in h.it.ghost.get("sorted", {}) and t.args[1] is k:
                src = h.it.ghost["sorted"][t.args[0]][1]      # a rearrangement of src
                fn = lambda j: src((j,))
            h.eq("exactly the documented points (multiset)", tm.sum_(Z, total, lambda j: phi(fn(j))), spec)
        kw = {} if origin else {"include_origin": False}

        def go():
            a = []
            if extra:
                a = [PList([]) if extra == "empty" else ex if extra == "array" else
                     PList(head=(e, lambda i: Num(el(ex, i)))) if h.sizes is None else
                     PList([Num(el(ex, num(i))) for i in range(int(tm.val(e)))])]
            o = h.call(CLE, zat, m, n, *a, **kw)
            return h.attr(o, "points"), h.len(o), h.attr(o, "atomic_number")
        h.run("construct", go, post)
    GROUPS.append(g)


for _o in (True, False):
    for _e in (False, "array", "list", "empty"):
        clenshaw(_o, _e)
