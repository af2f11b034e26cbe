"""Random and edge-case arrays and orders (close to one, below and above, 0.5, integers) on fresh and reused
objects against f((f/g)^(alpha-1)-1)/(alpha-1); orders to be refused are refused."""
import numpy as np
from bfit.measure import TsallisDivergence


def run(o):
    o.haunt(TsallisDivergence, "evaluate")
    for k in o.rounds(1200):
        n = int(o.pick(1, 2, 5, 30, 200))
        mask = float(o.pick(0.0, 1e-12, 1e-6, 1e-2))
        al = float(o.pick(1.001, 1.01, 1.5, 2.0, 3.0, 0.5, 0.9, 0.999, 1 + 1e-6, int(o.rng.integers(2, 5)) + o.rng.choice([-1, 1]) * 10.0 ** o.rng.uniform(-9, -2),
                          0.5 + 1e-6, o.rng.uniform(0.01, 4)))
        if abs(al - 1) < 1e-9:
            continue
        dflt = o.rng.random() < 0.1
        if dflt:
            m, al, mask = TsallisDivergence(), 1.001, 1e-12
        else:
            m = TsallisDivergence(al, mask_value=mask)
        o.ok("published order", m.alpha == al and m.mask_value == mask, dict(alpha=al, mask=mask))
        for step in range(2):
            f = 10.0 ** o.rng.uniform(-6, 3, n)
            g = 10.0 ** o.rng.uniform(-6, 3, n)
            if al > 1:
                f[o.rng.random(n) < 0.15] = 0.0
                g[o.rng.random(n) < 0.15] = o.pick(0.0, mask, mask / 2, -1.0, -1e-9)
            else:
                g = np.maximum(g, 2 * mask)
            e = o.rng.random(n) < 0.1
            g[e] = np.where(f[e] > mask, f[e], g[e])
            f, g = o.buf(*o.whole(f, g))
            inp = dict(density=f, model=g, alpha=al, mask=mask, history="evaluation %d" % (step + 1))
            o.last = str(inp)[:500]
            v, d = [], []
            for x, y in zip(f, g):
                r = 0.0 if y <= mask else x / y
                if y <= mask or x == 0:
                    v.append(-x / (al - 1.0))
                else:
                    v.append(x * np.expm1((al - 1.0) * np.log(r)) / (al - 1.0))
                d.append(-r ** al)
            f0, g0 = f.copy(), g.copy()
            a = m.evaluate(f, g)
            b = m.evaluate(f, g, deriv=True)
            sc = 1e-13 * np.max(f * (1 + np.abs(np.where(g > mask, f / np.where(g > mask, g, 1), 0)) ** (al - 1))) / abs(al - 1)
            o.close("value", a, v, inp, rtol=1e-9, atol=sc + 1e-300)
            o.close("value with derivative", b[0], v, inp, rtol=1e-9, atol=sc + 1e-300)
            o.close("derivative = -(f/g)^alpha", b[1], d, inp, rtol=1e-9, atol=1e-300)
            o.untouched("arguments unchanged", dict(f=f0, g=g0), dict(f=f, g=g), inp)
        bad = -10.0 ** o.rng.uniform(-12, 3)
        o.refused("negative order", lambda: TsallisDivergence(bad), dict(alpha=bad))
        bad = 1.0 + o.rng.uniform(-1, 1) * 1e-11
        o.refused("order one", lambda: TsallisDivergence(bad), dict(alpha=bad))
    o.refused("order one", lambda: TsallisDivergence(1), dict(alpha=1))
