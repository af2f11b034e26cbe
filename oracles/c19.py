"""Random sets of 1..7 functions (repeated, unsorted, negative and zero exponents, integral values), factors and
fill-in values: the three candidate lists against lists written from the documented rule; repeated calls agree and
leave the arguments unchanged."""
import numpy as np
import bfit.greedy as G


def one(c, e, i, f, v):
    n = len(e)
    new = e[0] / f if i == 0 else e[-1] * f if i == n else (e[i - 1] + e[i]) / 2
    return c[:i] + [v] + c[i:], e[:i] + [new] + e[i:]


def rule(name, c, e, f, v):
    n = len(e)
    if name == "pick-one":
        return [one(c, e, i, f, v) for i in range(n + 1)]
    two = [one(*one(c, e, i, f, v), k, f, v) for i in range(n + 1) for k in range(i, n + 2)]
    if name == "pick-two":
        return two
    return [(a[:j] + a[j + 1:], b[:j] + b[j + 1:]) for a, b in two for j in range(n + 2)]




def run(o):
    FUN = {"pick-one": "get_next_choices", "pick-two": "get_two_next_choices", "pick-two-lose-one": "pick_two_lose_one"}
    o.haunt(G, *FUN.values())
    FUN = {k: getattr(G, v) for k, v in FUN.items()}
    for k in o.rounds(500):
        n = int(o.rng.integers(1, 8)) if k >= 14 else k % 7 + 1
        c, e = o.coeffs(n), o.expons(n, -6, 6)
        mode = int(o.rng.integers(0, 5))
        if mode == 1:
            e = np.sort(e)
        elif mode == 2:
            e[:] = e[0]
        elif mode == 3:
            e = o.rng.normal(size=n).round(1)
        elif mode == 4:
            c, e = np.round(c * 10), np.arange(n) + 1.0
        f = float(o.pick(2.0, 100.0, 1.0, 0.3, 10 ** o.rng.uniform(-2, 3)))
        v = float(o.pick(100.0, 1.0, 0.0, o.rng.normal()))
        for name, fn in FUN.items():
            inp = dict(strategy=name, factor=f, coeffs=c, exponents=e, value=v)
            c0, e0 = c.copy(), e.copy()
            default = v == 100.0
            got = o.call(name, lambda: fn(f, c, e) if default else fn(f, c, e, v), inp)
            if got is None:
                continue
            want = rule(name, list(c0), list(e0), f, v)
            if o.ok(name + ": number of candidates", len(got) == len(want), inp, len(got)):
                for i, (g, (a, b)) in enumerate(zip(got, want)):
                    o.close(name + ": candidate", g, np.array(a + b), dict(inp, candidate=i), rtol=1e-12, atol=0)
            o.untouched(name + ": arguments unchanged", dict(c=c0, e=e0), dict(c=c, e=e), inp)
