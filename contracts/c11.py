from contracts.common import *
from vc.harness import integral as integers

GROUPS = []
CUB = "bfit.grid.CubicGrid"


class Cub:
    def __init__(self, h):
        self.h = h
        self.o, self.ax = h.arr("o", (num(3),)), h.arr("A", (num(3), num(3)))
        self.n = [h.size("n%d" % i) for i in range(3)]
        self.N = mul(*self.n)
        self.ijk = [h.index("i%d" % i, self.n[i]) for i in range(3)]
        i, j, k = self.ijk
        self.flat = add(mul(add(mul(i, self.n[1]), j), self.n[2]), k)

    def a(self, r, c):
        return el(self.ax, num(r), num(c))

    def det(self):
        a = self.a
        return add(mul(a(0, 0), sub(mul(a(1, 1), a(2, 2)), mul(a(1, 2), a(2, 1)))),
                   mul(a(0, 1), sub(mul(a(1, 2), a(2, 0)), mul(a(1, 0), a(2, 2)))),
                   mul(a(0, 2), sub(mul(a(1, 0), a(2, 1)), mul(a(1, 1), a(2, 0)))))

    def shape_value(self, kind):
        if kind == "tuple":
            return tuple(Num(x) for x in self.n)
        if kind == "list":
            return PList([Num(x) for x in self.n])
        n = self.n
        return Arr(Buf(lambda ix: tm.ite(tm.eq(ix[0], Z), n[0], tm.ite(tm.eq(ix[0], ONE), n[1], n[2])), (num(3),), "i"))

    def make(self, kind="tuple"):
        return self.h.call(CUB, self.o, self.ax, self.shape_value(kind))


BD = [{"n0": 2, "n1": 3, "n2": 2, "i0": 1, "i1": 2, "i2": 1}, {"n0": 1, "n1": 1, "n2": 1},
      {"n0": 1, "n1": 2, "n2": 3, "i0": 0, "i1": 1, "i2": 2}]


@group("points", bounds=BD)
def points(h):
    c = Cub(h)
    h.reachable("inputs")
    d = h.index("d", num(3))

    def post(v):
        p, ln, axes = v
        h.shape("shape", p, (c.N, num(3)))
        h.eq("len", ln, c.N)
        for d in range(3):
            dd = num(d)
            want = add(el(c.o, dd), *[mul(c.ijk[r], el(c.ax, num(r), dd)) for r in range(3)])
            h.eq("coordinate %d of point (i,j,k), k fastest" % d, el(p, c.flat, dd), want)
            for r in range(3):
                h.eq("axes are those given (%d,%d)" % (r, d), el(axes, num(r), dd), c.a(r, d))
    for kind in ("tuple", "list", "array"):
        h.run("CubicGrid(shape: %s)" % kind, lambda: (lambda g: (h.attr(g, "points"), h.len(g), h.attr(g, "axes")))(c.make(kind)), post)


@group("integral", bounds=BD)
def integral(h):
    c = Cub(h)
    y, z = h.arr("y", (c.N,)), h.arr("z", (c.N,))
    w = tm.abs_(c.det())
    one = Arr(Buf(lambda ix: num(1.0), (c.N,), "f"))
    comb = Arr(Buf(lambda ix: add(mul(sym("al"), el(y, ix[0])), mul(sym("be"), el(z, ix[0]))), (c.N,), "f"))

    def post(v):
        iy, iz, i1, ic, iy2 = [tv(x) for x in v]
        h.eq("integral = |det| * sum", iy, mul(w, tm.sum_(Z, c.N, lambda k: el(y, k))))
        h.eq("weights add up to the volume", i1, mul(w, c.N))
        h.eq("linear", ic, add(mul(sym("al"), iy), mul(sym("be"), iz)))
        h.eq("no history", iy2, iy)

    def go():
        g = c.make()
        h.inplace(lambda: h.meth(g, "integrate", y), y)
        return [h.meth(g, "integrate", v) for v in (y, z, one, comb, y)]
    h.run("integrate", go, post)


@group("other shapes refused", bounds=[dict(BD[0], k=2, D=1), dict(BD[1], k=2, D=2)])
def refused(h):
    c = Cub(h)
    k, D = h.size("k", 0), h.size("D")
    y, y2, y3 = h.arr("y", (k,)), h.arr("y2", (c.N, D)), h.arr("y3", (D, c.N))
    y4 = h.arr("y4", tuple(c.n))
    with h.under(tm.not_(tm.eq(k, c.N))):
        h.refused("another length", lambda: h.meth(c.make(), "integrate", y))
    h.refused("a matrix", lambda: h.meth(c.make(), "integrate", y2))
    h.refused("a transposed matrix", lambda: h.meth(c.make(), "integrate", y3))
    h.refused("a cube of values", lambda: h.meth(c.make(), "integrate", y4))


GROUPS = [points, integral, refused]


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n, label=", integer " + " ".join(n)) for g in GROUPS[:] for n in (("o", "A"), ("o",))]
