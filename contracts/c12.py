"""The box of CubicGrid.from_molecule.  The constructor is used through its contract (C11): the grid has
the points o + i a_0 + j a_1 + k a_2, so origin, axes and shape are what the constructor receives."""
from contracts.common import *
from vc.harness import integral as integers

def orthogonal(h, V):
    """V^T V = V V^T = 1 as a Groebner basis, so that reduction by it is complete."""
    import sympy as sp
    xs = sp.symbols("v0:9")
    W = sp.Matrix(3, 3, xs)
    rel = [sp.expand(m[i, j]) for m in (W.T * W - sp.eye(3), W * W.T - sp.eye(3)) for i in range(3) for j in range(i, 3)]
    mono = lambda e: [V(k // 3, k % 3) for k in range(9) for _ in range(e[k])]
    for g in sp.groebner(rel, *xs, order="grevlex"):
        p = sp.Poly(g, *xs)
        lead = p.LM(order="grevlex").exponents
        lc = p.coeff_monomial(lead)
        rest = [mul(tm.num(float(-c / lc)), *mono(e)) for e, c in p.terms() if tuple(e) != tuple(lead)]
        h.ctx.relation(mono(lead), add(R0, *rest))


GROUPS = []
CUB = "bfit.grid.CubicGrid"
ASSUMPTIONS = ["np.linalg.eigh returns an orthogonal matrix of eigenvectors, V^T V = V V^T = 1 (assumed contract)",
               "np.amax/np.amin bound every element (assumed contract)"]
THREE = num(3)


def molecule(rotate, dflt):
    @group("rotate=%s%s" % (rotate, " defaults" if dflt else ""), bounds=[{"M": 1, "q": 0}, {"M": 2, "q": 1}, {"M": 3, "q": 1}])
    def g(h):
        M = h.size("M")
        zs, X = h.arr("z", (M,)), h.arr("X", (M, THREE))
        h.forall(M, lambda k: tm.lt(R0, el(zs, k)))
        s = num(0.2) if dflt else h.real("s", pos=True)
        ext = num(5.0) if dflt else h.real("ext", nonneg=True)
        q = h.index("q", M)
        got = {}

        def ctor(it, args, kw):
            names = ["self", "origin", "axes", "shape"]
            d = dict(zip(names, args))
            d.update(kw)
            got.update(d)
            it.used_models.add("contract CubicGrid.__init__ (C11)")
            return None
        h.it.contracts[("bfit.grid", "CubicGrid.__init__")] = ctor

        def go():
            got.clear()
            h.it.ghost["eigh"] = []
            kw = {} if dflt and rotate else {"rotate": rotate}
            if not dflt:
                kw.update(spacing=s, extension=ext)
            h.meth(h.get(CUB), "from_molecule", zs, X, **kw)
            return dict(got), list(h.it.ghost["eigh"])

        def post(v):
            g, eig = v
            o, ax, sh = g["origin"], g["axes"], g["shape"]
            h.shape("origin", o, (THREE,))
            h.shape("axes", ax, (THREE, THREE))
            n = [el(sh, num(d)) for d in range(3)] if isinstance(sh, Arr) else [tv(x) for x in h.it.concrete_items(sh)]
            h.is_true("three counts", len(n) == 3)
            h.ctx.relations.clear()
            for vn, _, _ in eig:
                orthogonal(h, lambda i, j, vn=vn: tm.app(vn, num(i), num(j)))
            A = [[el(ax, num(r), num(c)) for c in range(3)] for r in range(3)]
            for a in range(3):
                for b in range(a, 3):
                    h.eq("axes %d, %d orthogonal with length spacing" % (a, b), add(*[mul(A[a][k], A[b][k]) for k in range(3)]),
                         mul(s, s) if a == b else R0)
            for d in range(3):
                # signed distance along axis d of an atom from the corner of the box
                def proj(m, d=d, o=True):
                    return div(add(*[mul(A[d][k], sub(el(X, m, num(k)), el(g["origin"], num(k)) if o else R0))
                                     for k in range(3)]), s)
                P = lambda m: proj(m, o=False)
                hi, lo = tm.max_(Z, M, P), tm.min_(Z, M, P)
                # contract of max/min, at atom q
                h.assume(tm.le(h.ctx.canon(P(q)), h.ctx.canon(hi)))
                h.assume(tm.le(h.ctx.canon(lo), h.ctx.canon(P(q))))
                need = div(add(sub(hi, lo), mul(num(2.0), ext)), s)
                h.eq("count along axis %d is the smallest sufficient one" % d, n[d], tm.ceil(need))
                h.le("box long enough (axis %d)" % d, add(sub(hi, lo), mul(num(2.0), ext)), mul(s, n[d]))
                t = proj(q)
                mid = sub(div(add(hi, lo), num(2.0)), div(mul(s, n[d]), num(2.0)))
                h.eq("box centred on the molecule (axis %d)" % d, sub(t, P(q)), tm.neg(mid))
                h.le("atom at least extension above the lower face (axis %d)" % d, ext, sub(P(q), mid))
                h.le("atom at least extension below the upper face (axis %d)" % d, sub(P(q), mid), sub(mul(s, n[d]), ext))
        h.run("from_molecule", go, post)
    GROUPS.append(g)


molecule(False, False)
molecule(True, False)
molecule(False, True)
molecule(True, True)


# the same contracts for arrays of integers (whatever is written into arrays like them would be truncated)
GROUPS += [integers(g, *n.split(), label=", integer " + n) for g in GROUPS[:] for n in ('z X',)]
