"""Merging on random sets of up to 30 functions: clusters and chains of near-equal exponents in any order, exact ties,
distances just below and above the threshold; coefficients are powers of two so that every merge can be decoded."""
import numpy as np
import bfit.greedy as G


def run(o):
    o.haunt(G, "remove_redundancies")
    for k in o.rounds(6000):
        M = int(o.rng.integers(1, 13 if o.rng.random() < 0.8 else 31))
        eps = o.pick(1e-3, 1e-3, 0.1, 1.0, 1e-6)
        base = 10.0 ** o.rng.uniform(-2, 2, M)
        mode = o.pick("clusters", "chain", "apart", "grid", "ties")
        if mode == "clusters":
            e = np.array([o.rng.choice(base[:max(1, M // 3)]) for _ in range(M)]) + eps * o.rng.uniform(-0.8, 0.8, M)
        elif mode == "chain":
            e = base[0] + eps * np.cumsum(o.rng.choice([0.3, 0.6, 0.9, 1.1, 2.0], M))
        elif mode == "apart":
            e = base[0] + eps * np.cumsum(o.rng.uniform(1.01, 3, M))
        elif mode == "grid":
            e = base[0] + eps * o.rng.integers(0, 2 * M, M) * 0.75
        else:
            e = o.rng.choice(base[:max(1, M // 2)], M)
        if o.rng.random() < 0.5:
            e = o.rng.permutation(e)
        e = np.abs(e)
        coded = o.rng.random() < 0.8
        c = 2.0 ** o.rng.permutation(M) if coded else o.rng.normal(size=M)
        c, e = o.buf(c, e)
        c0, e0 = c.copy(), e.copy()
        inp = dict(coeffs=c0, exps=e0, eps=eps, mode=mode)
        r = o.call("remove_redundancies", lambda: G.remove_redundancies(c, e, eps) if eps != 1e-3 or k % 2 else G.remove_redundancies(c, e), inp)
        if r is None:
            continue
        o.untouched("arguments unchanged", dict(c=c0, e=e0), dict(c=c, e=e), inp)
        nc, ne = (np.asarray(x, float) for x in r)
        obs = {"coeffs": nc, "exps": ne}
        if not o.ok("equally many coefficients and exponents", nc.ndim == ne.ndim == 1 and nc.shape == ne.shape, inp, obs):
            continue
        o.ok("no shared memory", not (np.shares_memory(r[0], c) or np.shares_memory(r[1], e)), inp)
        o.close("sum of the coefficients", nc.sum(), c0.sum(), inp, rtol=1e-9, atol=1e-9)
        L = len(ne)
        d = np.abs(e0[:, None] - e0[None, :])
        near = d < eps
        if not near[~np.eye(M, dtype=bool)].any():
            o.ok("unchanged when nothing is near", np.array_equal(nc, c0) and np.array_equal(ne, e0), inp, obs)
        D = np.abs(ne[:, None] - ne[None, :])
        o.ok("returned exponents are apart", not (D[~np.eye(L, dtype=bool)] < eps).any(), inp, obs)
        # subsequence
        i, ok = 0, True
        for x in ne:
            while i < M and e0[i] != x:
                i += 1
            if i == M:
                ok = False
                break
            i += 1
        o.ok("subsequence of the given exponents", ok, inp, obs)
        if coded and ok:
            own = {int(round(np.log2(v))): j for j, v in enumerate(c0)}
            seen, good = [], True
            for x, v in zip(ne, nc):
                v = int(v)
                mem = [own[b] for b in range(M) if v >> b & 1]
                seen += mem
                good &= any(e0[j] == x for j in mem) and all(abs(e0[j] - x) < eps or e0[j] == x for j in mem)
            o.ok("each function is counted once, by a returned function near it", good and sorted(seen) == list(range(M)), inp, obs)
