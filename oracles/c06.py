"""Random and edge-case arrays (zeros, negatives, equal entries, 1e-150..1e150) against (f-g)^2."""
import numpy as np
from bfit.measure import SquaredDifference


def run(o):
    o.haunt(SquaredDifference, "evaluate")
    m = SquaredDifference()
    for k in o.rounds(3000):
        n = int(o.pick(1, 2, 5, 30, 300))
        s = 10.0 ** o.rng.uniform(-100, 100)
        f, g = o.rng.normal(size=n) * s, o.rng.normal(size=n) * s
        g[o.rng.random(n) < 0.2] = 0.0
        e = o.rng.random(n) < 0.2
        g[e] = f[e]
        f, g = o.buf(*o.whole(f, g, p=0.8))
        inp = dict(density=f, model=g)
        v = np.array([(x - y) * (x - y) for x, y in zip(f, g)])
        f0, g0 = f.copy(), g.copy()
        a = m.evaluate(f, g)
        b = m.evaluate(f, g, deriv=True)
        o.close("value = (f-g)^2", a, v, inp, rtol=1e-12, atol=0)
        o.close("value with derivative", b[0], v, inp, rtol=1e-12, atol=0)
        o.close("derivative = -2(f-g)", b[1], [-2 * (x - y) for x, y in zip(f, g)], inp, rtol=1e-12, atol=0)
        o.ok("non-negative", np.all(a >= 0), inp)
        o.ok("zero only at equality", np.array_equal(a == 0, f == g), inp)
        o.untouched("arguments unchanged", dict(f=f0, g=g0), dict(f=f, g=g), inp)
