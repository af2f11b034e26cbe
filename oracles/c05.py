"""Random and edge-case density/model arrays (zeros in either, entries at the mask value and one ulp around
it, huge ratios, negative entries anywhere) on fresh and reused measure objects, against f ln(f/g)."""
import numpy as np
from bfit.measure import KLDivergence


def arrays(o, mask, n):
    f = 10.0 ** o.rng.uniform(-9, 4, n)
    g = 10.0 ** o.rng.uniform(-9, 4, n)
    f[o.rng.random(n) < 0.2] = 0.0
    g[o.rng.random(n) < 0.15] = 0.0
    for s in (mask, np.nextafter(mask, 9e99), np.nextafter(mask, 0), 2 * mask, mask / 2):
        g[o.rng.random(n) < 0.06] = s
    e = o.rng.random(n) < 0.1
    f[e] = g[e]
    return f, g


def want(f, g, mask):
    r = np.array([1.0 if y <= mask else x / y for x, y in zip(f, g)])
    v = np.array([0.0 if x == 0 or y <= mask else x * np.log(x / y) for x, y in zip(f, g)])
    return v, -r


def run(o):
    o.haunt(KLDivergence, "evaluate")
    for k in o.rounds(1500):
        n = int(o.pick(1, 2, 5, 30, 300))
        default = o.rng.random() < 0.4
        mask = 1e-12 if default else float(o.pick(0.0, 1e-12, 1e-8, 1e-3, 1.0))
        neg = None if default else float(o.pick(100000.0, 7.5, 1e300, 0.0))
        m = KLDivergence() if default else KLDivergence(mask_value=mask, negative_val=neg)
        neg = m.negative_val if default else neg
        for step in range(3):
            f, g = o.buf(*o.whole(*arrays(o, mask, n)))
            hist = "evaluation %d of the object" % (step + 1)
            inp = dict(density=f, model=g, mask=mask, negative_val=neg, history=hist)
            o.last = str(inp)[:500]
            v, d = want(f, g, mask)
            f0, g0 = f.copy(), g.copy()
            a = m.evaluate(f, g)
            b = m.evaluate(f, g, deriv=True)
            o.close("value = f ln(f/g), zero rule, mask rule", a, v, inp, rtol=1e-8, atol=1e-300)
            o.ok("pair", isinstance(b, tuple) and len(b) == 2, inp)
            o.close("value with derivative", b[0], v, inp, rtol=1e-8, atol=1e-300)
            o.close("derivative = -ratio", b[1], d, inp, rtol=1e-12)
            o.ok("finite", np.all(np.isfinite(a)) and np.all(np.isfinite(b[0])) and np.all(np.isfinite(b[1])), inp)
            o.ok("plain arrays", all(type(x) is np.ndarray for x in (a, b[0], b[1])), inp)
            o.untouched("arguments unchanged", dict(f=f0, g=g0), dict(f=f, g=g), inp)
            # a negative entry anywhere, however small
            g2 = g.astype(float)
            g2[o.rng.integers(n)] = -10.0 ** o.rng.uniform(-300, 3)
            inp = dict(inp, model=g2)
            pen = np.full(n, neg)
            a = m.evaluate(f, g2)
            b = m.evaluate(f, g2, deriv=True)
            o.close("penalty value", a, pen, inp)
            o.close("penalty value with derivative", b[0], pen, inp)
            o.close("penalty derivative", b[1], pen, inp)
        if default:
            o.ok("default mask and penalty", m.mask_value == 1e-12 and np.isfinite(m.negative_val), {})
