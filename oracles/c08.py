"""Random pairs of positive functions: the pointwise inequalities and, on random radial and cubic grids with
equal integrals, the non-negativity of the integrated divergence."""
import numpy as np
from bfit.measure import KLDivergence, SquaredDifference, TsallisDivergence
from bfit.grid import UniformRadialGrid, CubicGrid


def run(o):
    for c in (KLDivergence, SquaredDifference, TsallisDivergence):
        o.haunt(c, "evaluate")
    for k in o.rounds(1500):
        n = int(o.pick(2, 5, 30, 200))
        f = 10.0 ** o.rng.uniform(-6, 3, n)
        g = 10.0 ** o.rng.uniform(-6, 3, n)
        if o.rng.random() < 0.3:
            g = f * (1 + 1e-4 * o.rng.normal(size=n))
        if o.rng.random() < 0.25:                  # both small (but above the mask value)
            f, g = 10.0 ** o.rng.uniform(-11, -8, n), 10.0 ** o.rng.uniform(-11, -8, n)
        f[o.rng.random(n) < 0.15] = 0.0
        e = o.rng.random(n) < 0.1
        g[e] = np.where(f[e] > 0, f[e], g[e])
        al = float(o.pick(1.001, 1.1, 2.0, o.rng.uniform(1.001, 4)))
        inp = dict(density=f, model=g, alpha=al)
        o.last = str(inp)[:500]
        kl = KLDivergence().evaluate(f, g)
        ts = TsallisDivergence(al).evaluate(f, g)
        sq = SquaredDifference().evaluate(f, g)
        tol = 1e-13 * (f + g)
        o.ok("KL integrand >= f - g", np.all(kl >= f - g - tol - 1e-13 * np.abs(kl)), inp, kl)
        far = np.abs(f - g) > 1e-5 * (f + g)
        o.ok("strict where f differs from g", np.all((kl > f - g)[far]), inp, kl)
        o.ok("KL integrand = f - g at equality", np.all(np.abs(kl)[e & (f > 0)] <= tol[e & (f > 0)]), inp, kl)
        o.ok("squared difference >= 0", np.all(sq >= 0), inp)
        p = np.where(f > 0, (f / g) ** (al - 1), 0)
        o.ok("Tsallis >= KL", np.all(ts >= kl - 1e-12 * f * (1 + p) / (al - 1) - 1e-13 * np.abs(kl)), inp, [ts, kl])
        gr = UniformRadialGrid(n, 0.0, float(o.rng.uniform(1, 20)))
        If, Ig = gr.integrate(f), gr.integrate(g)
        if If > 0:
            g2 = g * (If / Ig)
            if g2.min() > 1e-12:
                v = gr.integrate(KLDivergence().evaluate(f, g2))
                o.ok("integrated KL >= 0 for equal integrals", v >= -1e-11 * If, dict(inp, model=g2), v)
