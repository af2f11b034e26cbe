"""Greedy candidate lists, for every number of functions, all exponents, coefficients, factors and fill-in values.
Pick-two lists the candidates (i, k), i <= k, one block per i: candidate off(i) + k - i with off the sum of the lengths of
the earlier blocks.  Pick-two-lose-one is judged against the contract of pick-two.  Both are also run, bounded, on the
explicit lists for few functions."""
from contracts.common import *
from vc.values import Unsupported

GROUPS = []
LEVEL_NOTE = ("Unbounded in the number of functions, exponents, coefficients, factor and fill-in value; pick-two-lose-one is "
              "judged against the contract of pick-two. The groups with explicit lists (1..6 functions) are bounded and not "
              "counted as proved. Real arithmetic instead of floats.")
MOD = "bfit.greedy."


class Set:
    def __init__(self, h, n=None):
        self.h = h
        self.n = n = h.size("n", 1) if n is None else num(n)
        self.c, self.e = h.arr("c", (n,)), h.arr("e", (n,))
        self.f, self.v = h.real("factor"), h.real("val")
        h.assume(tm.lt(num(0.0), tv(self.f)))


def ins(fn, n, pos, val):
    """Sequence fn of length n with val inserted at pos."""
    return lambda j: tm.ite(tm.lt(j, pos), fn(j), tm.ite(tm.eq(j, pos), val, fn(sub(j, ONE))))


def new_exp(e, n, pos, f):
    """Exponent of the documented candidate that inserts at pos."""
    return tm.ite(tm.eq(pos, Z), div(e(Z), f), tm.ite(tm.eq(pos, n), mul(e(sub(n, ONE)), f),
                                                      div(add(e(sub(pos, ONE)), e(pos)), num(2.0))))


def one(c, e, n, pos, f, v):
    """pick-one candidate number pos: (coefficients, exponents, n + 1)."""
    return ins(c, n, pos, v), ins(e, n, pos, new_exp(e, n, pos, f)), add(n, ONE)


def lose(c, e, n, j):
    d = lambda fn: (lambda t: tm.ite(tm.lt(t, j), fn(t), fn(add(t, ONE))))
    return d(c), d(e), sub(n, ONE)


def check(h, name, got, cand):
    c, e, n = cand
    if not h.is_true(name + ": vector", isinstance(got, Arr) and got.ndim == 1, repr(got)):
        return
    h.shape(name + ": coefficients and as many exponents", got, (mul(num(2), n),))
    j = h.index("j", n)
    h.eq(name + ": coefficient", el(got, j), c(j))
    h.eq(name + ": exponent", el(got, add(n, j)), e(j))


@group("pick-one", bounds=[{"n": k} for k in (1, 2, 3, 4)])
def pick_one(h):
    s = Set(h)
    c0, e0 = s.c.snap(), s.e.snap()
    p = h.index("p", add(s.n, ONE))

    def go():
        v = h.call(MOD + "get_next_choices", s.f, s.c, s.e, s.v)
        return v, h.it.getitem(v, Num(p))

    def post(v):
        h.eq("number of candidates", h.len(v[0]), add(s.n, ONE))
        check(h, "candidate", v[1], one(lambda j: c0((j,)), lambda j: e0((j,)), s.n, p, tv(s.f), tv(s.v)))
    h.run("get_next_choices", go, post)


GROUPS.append(pick_one)


def two(c, e, n, i, k, f, v):
    """Insertion at i, then at k >= i into what results."""
    c1, e1, n1 = one(c, e, n, i, f, v)
    return one(c1, e1, n1, k, f, v)


def bounded(name, qual, cands, top):
    """All candidates of the rule for each n up to top; exponents, coefficients, factor and fill-in value symbolic."""
    @group(name, bounds=[{"n": k} for k in range(1, top + 1)], unbounded=False)
    def g(h):
        n = h.sizes["n"]
        s = Set(h, n)
        c0, e0 = s.c.snap(), s.e.snap()
        want = cands(lambda j: c0((j,)), lambda j: e0((j,)), n, tv(s.f), tv(s.v))

        def post(v):
            h.eq("number of candidates", h.len(v), num(len(want)))
            for k, (c, e, m) in enumerate(want):
                got = h.it.getitem(v, k)
                m = int(tm.show(m))
                h.shape("candidate %d" % k, got, (num(2 * m),))
                h.holds("candidate %d" % k, tm.and_(*[tm.eq(el(got, num(j)), c(num(j))) for j in range(m)]
                                                    + [tm.eq(el(got, num(m + j)), e(num(j))) for j in range(m)]))
        h.run(qual, lambda: h.call(MOD + qual, s.f, s.c, s.e, s.v), post)
    GROUPS.append(g)


def twos(c, e, n, f, v):
    return [two(c, e, num(n), num(i), num(k), f, v) for i in range(n + 1) for k in range(i, n + 2)]


def loses(c, e, n, f, v):
    return [lose(*t, num(j)) for t in twos(c, e, n, f, v) for j in range(n + 2)]


def off(n, i):
    """Number of pick-two candidates whose first insertion is before i."""
    return tm.sum_(Z, i, lambda t: sub(add(n, num(2)), t))


def pick_two(part):
    least = {"first insertion inside": 3, "first insertion before the last": 2}.get(part, 1)

    @group("pick-two, " + part, bounds=[{"n": k} for k in range(least, 5)])
    def g(h):
        s = Set(h)
        n = s.n
        c0, e0 = s.c.snap(), s.e.snap()
        if part == "first insertion in front":
            i = Z
        elif part == "first insertion inside":
            h.assume(tm.le(num(3), n))
            i = add(h.index("i", sub(n, num(2))), ONE)
        elif part == "first insertion before the last":
            h.assume(tm.le(num(2), n))
            i = sub(n, ONE)
        else:
            i = n
        d = h.index("d", sub(add(n, num(2)), i))
        h.it.ghost["block_hint"] = (sub(i, ONE), i, sub(i, num(2)))

        def go():
            v = h.call(MOD + "get_two_next_choices", s.f, s.c, s.e, s.v)
            return v, h.it.getitem(v, Num(add(off(n, i), d)))

        def post(v):
            if part == "first insertion in front":
                h.eq("number of candidates", h.len(v[0]), off(n, add(n, ONE)))
            check(h, "candidate", v[1], two(lambda j: c0((j,)), lambda j: e0((j,)), n, i, add(i, d), tv(s.f), tv(s.v)))
        h.run("get_two_next_choices", go, post)
    GROUPS.append(g)


for _p in ("first insertion in front", "first insertion inside", "first insertion before the last", "first insertion at the end"):
    pick_two(_p)


@group("pick-two-lose-one", bounds=[{"n": k} for k in (1, 2, 3)])
def pick_two_lose(h):
    s = Set(h)
    n = s.n
    m = add(n, num(2))
    w = lambda q, j: app("two", q, j)
    cnt = off(n, add(n, ONE))
    if h.sizes is not None:
        cnt = h.ctx.canon(cnt)
    q, j = h.index("q", cnt), h.index("j", m)
    c0, e0 = s.c.snap(), s.e.snap()
    used = []

    def contract(it, args, kw):
        a = dict(zip(["factor", "coeffs", "fparams", "coeff_val"], args))
        a.update(kw)
        used.append(1)
        x, y = a["coeffs"], a["fparams"]
        h.shape("pick-two is asked with the coefficients", x, (n,))
        h.shape("pick-two is asked with the exponents", y, (n,))
        t = h.index("t", n)
        h.eq("pick-two is asked with the coefficients", el(x, t), c0((t,)))
        h.eq("pick-two is asked with the exponents", el(y, t), e0((t,)))
        h.eq("pick-two is asked with the factor", tv(a["factor"]), tv(s.f))
        h.eq("pick-two is asked with the value", tv(a.get("coeff_val", Num(num(100.0)))), tv(s.v))
        it.used_models.add("contract of get_two_next_choices (proved above)")
        vec = lambda t: Arr(Buf(lambda ix: w(t, ix[0]), (mul(num(2), m),), "f"))
        if h.sizes is not None:
            return PList([vec(num(t)) for t in range(int(tm.val(cnt)))])
        return PList(head=(cnt, vec))
    h.it.contracts[("bfit.greedy", "get_two_next_choices")] = contract
    h.it.ghost["block_hint"] = (q,)

    def go():
        v = h.call(MOD + "pick_two_lose_one", s.f, s.c, s.e, s.v)
        if not used:
            raise Unsupported("the candidates are not built from those of pick-two")
        return v, h.it.getitem(v, Num(add(mul(q, m), j)))

    def post(v):
        h.eq("number of candidates", h.len(v[0]), mul(cnt, m))
        check(h, "candidate", v[1], lose(lambda t: w(q, t), lambda t: w(q, add(m, t)), m, j))
    h.run("pick_two_lose_one", go, post)


GROUPS.append(pick_two_lose)
bounded("pick-two, explicit lists", "get_two_next_choices", twos, 6)
bounded("pick-two-lose-one, explicit lists", "pick_two_lose_one", loses, 5)
