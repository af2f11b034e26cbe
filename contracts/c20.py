"""Merging of redundant functions: for M = 1..7 functions with arbitrary coefficients, exponents and threshold, every
outcome of the comparisons.  Nested searches over sets are outside the loop rules, hence a bound on M."""
import itertools
from contracts.common import *

GROUPS = []
LEVEL = "other"
EXPLANATION = ("bounded contract check: the postcondition is discharged by the verifier on every path of the real code for each "
               "fixed number of functions up to the bound, with coefficients, exponents and threshold symbolic")
LEVEL_NOTE = ("bounded: all coefficients, exponents and thresholds symbolic, every pattern of near-equal exponents enumerated; bounded in "
              "the number of functions (M = 1..6 quick, 7 thorough) and counted as bounded, not as proved for all M.")


def merge(name, sizes, tier):
    @group(name, bounds=sizes, unbounded=False, tier=tier, timeout=600)
    def g(h):
        M = h.sizes["M"]
        c, e, eps = h.arr("c", (num(M),)), h.arr("e", (num(M),)), h.real("eps", pos=True)
        ci = [el(c, num(i)) for i in range(M)]
        ei = [el(e, num(i)) for i in range(M)]
        E = tv(eps) if not isinstance(eps, tm.T) else eps
        close = lambda a, b: tm.lt(tm.abs_(sub(a, b)), E)
        far = lambda a, b: tm.le(E, tm.abs_(sub(a, b)))
        total = lambda xs: add(*xs) if len(xs) > 1 else xs[0]

        def post(v):
            out = h.it.concrete_items(v)
            if not h.is_true("coefficients and exponents", len(out) == 2, repr(v)):
                return
            nc, ne = out
            if not h.is_true("equally many coefficients and exponents", isinstance(nc, Arr) and isinstance(ne, Arr)
                             and len(nc.shape) == len(ne.shape) == 1 and nc.shape[0].op == "num" and nc.shape[0] is ne.shape[0],
                             "%r %r" % (nc, ne)):
                return
            L = int(tm.val(ne.shape[0]))
            oc, oe = [el(nc, num(k)) for k in range(L)], [el(ne, num(k)) for k in range(L)]
            h.eq("sum of the coefficients", total(oc) if L else num(0.0), total(ci))
            for a, b in itertools.combinations(range(L), 2):
                h.holds("returned exponents are apart", far(oe[a], oe[b]))
            pe = h.ctx.prove_eq

            def subseq(k, lo):
                if k == L:
                    yield ()
                    return
                for i in range(lo, M):
                    if pe(oe[k], ei[i]):
                        for r in subseq(k + 1, i + 1):
                            yield (i,) + r
            why = "no subsequence"
            for keep in itertools.islice(subseq(0, 0), 50):
                gone = [j for j in range(M) if j not in keep]
                opts = [[k for k in range(L) if h.ctx.prove(close(ei[j], oe[k]))] for j in gone]
                for asg in itertools.product(*opts):
                    if all(pe(oc[k], total([ci[keep[k]]] + [ci[j] for j, a in zip(gone, asg) if a == k])) for k in range(L)):
                        h.ok("each removed function is near one returned function, which gets its coefficient once", "normal form+z3")
                        break
                else:
                    why = "kept %s, near %s, coefficients %s" % (keep, opts, [tm.show(h.ctx.canon(x)) for x in oc])
                    continue
                break
            else:
                h.fail("each removed function is near one returned function, which gets its coefficient once", why)
            if L < M:
                # something was merged only if two exponents are near
                h.holds("merged only when two exponents are near", tm.or_(*[close(a, b) for a, b in itertools.combinations(ei, 2)]))
        for kind in ("threshold given", "keyword", "default"):
            if kind != "threshold given" and M > 2:
                continue
            if kind == "default":
                h.assume(tm.eq(E, num(1e-3)))
            fn = {"threshold given": lambda: h.call("bfit.greedy.remove_redundancies", c, e, eps),
                  "keyword": lambda: h.call("bfit.greedy.remove_redundancies", coeffs=c, fparams=e, eps=eps),
                  "default": lambda: h.call("bfit.greedy.remove_redundancies", c, e)}[kind]
            h.run(kind, fn, post)
    GROUPS.append(g)


merge("merging", [{"M": m} for m in (1, 2, 3, 4, 5, 6)], "quick")
merge("merging, seven functions", [{"M": 7}], "thorough")
