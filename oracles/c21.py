"""Greedy runs with scripted strategies (random start and inner optimisations: better, worse, redundant, infinite, NaN) and
with the strategies of the package, all three ways of choosing, maxima 1..12, run twice on the same object; every accepted
set, objective and report is recomputed independently, and each round must continue from its best candidate."""
import contextlib
import io
import numpy as np
import ref
from fitlib import *
from bfit.greedy import GreedyKLFPI, GreedyLeastSquares, GreedyStrategy


class Recorder:
    """Mixin: remembers every inner optimisation of a run."""

    def fresh(self):
        self.calls = []

    def get_optimization_routine(self, params, local=False):
        given = np.array(params, float)
        out = super().get_optimization_routine(params, local=local)
        m = self.fitting_obj.model
        self.calls.append((bool(local), given, np.array(out, float), int(m.num_s), int(m.num_p)))
        return out


class Scripted(GreedyStrategy):
    """Start and inner optimisation are arbitrary."""

    def __init__(self, o, p, fo, choice, mode):
        self.o_, self.p_, self.mode = o, p, mode
        super().__init__(fo, choice)

    def vec(self, n):
        r = self.o_.rng
        e = 10.0 ** r.uniform(-1.5, 1.0, n)
        A = ref.gauss_terms(self.x2(), None, e, self.fitting_obj.model.num_s, True)[0]
        if self.mode == "good" or r.random() < 0.5:
            from scipy.optimize import nnls
            try:
                c = nnls(A, self.p_.f)[0] + 1e-6
            except RuntimeError:
                c = np.full(n, 0.1)
        else:
            c = 10.0 ** r.uniform(-2, 1, n)
        return np.hstack((c, e))

    def x2(self):
        return self.p_.full(np.ones(self.p_.M), np.ones(self.p_.M))[2] ** 2

    def get_best_one_function_solution(self):
        return self.vec(1)

    def get_optimization_routine(self, params, local=False):
        r, n = self.o_.rng, len(params) // 2
        v = self.vec(n)
        what = self.o_.pick("plain", "plain", "keep", "same", "bad", "worse") if self.mode != "good" else "plain"
        if what == "keep" and r.random() < 0.5:
            v[n:] = np.clip(params[n:], 1e-2, 50)
        if what == "same" and n > 1:
            i, j = r.choice(n, 2, replace=False)
            v[n + j] = v[n + i] + r.choice([0.0, 1e-4, 9e-4, 2e-3])
        if what == "bad" and r.random() < 0.5:
            v[r.integers(2 * n)] = r.choice([np.nan, np.inf, -np.inf])
        if what == "worse":
            v[:n] *= 50
        return v


class ScriptedRun(Recorder, Scripted):
    pass


class KL(Recorder, GreedyKLFPI):
    pass


class LSQ(Recorder, GreedyLeastSquares):
    pass


def check(o, p, t, J, rep, maxf, inp, r):
    """Postcondition of one run."""
    its = [np.array(v, float) for v in r["parameters_iteration"]]
    perf = np.asarray(r["performance"], float)
    c, e = np.asarray(r["coeffs"], float), np.asarray(r["exps"], float)
    ns, np_ = int(r["num_s"]), int(r["num_p"])
    obs = {k: r[k] for k in ("coeffs", "exps", "num_s", "num_p", "fun", "parameters_iteration", "performance", "exit_information")}
    o.ok("within the maximum", 1 <= ns + np_ <= maxf and ns >= 1 and np_ >= 0, inp, obs)
    if not o.ok("counts agree with the parameters", c.shape == e.shape == (ns + np_,), inp, obs):
        return
    o.ok("last recorded parameters are returned", np.array_equal(its[-1], np.hstack((c, e)), equal_nan=True), inp, obs)
    m = t.fitting_obj.model
    o.ok("model and strategy are left with the returned counts",
         (int(m.num_s), int(m.num_p), int(t.num_s), int(t.num_p)) == (ns, np_, ns, np_), inp,
         dict(obs, model=(m.num_s, m.num_p), strategy=(t.num_s, t.num_p)))
    if not o.ok("one record per accepted set", perf.shape == (len(its), 5), inp, obs):
        return
    # every accepted set is the result of an inner optimisation, in order; its counts are those of that call
    kinds, pos = [(1, 0)], 0
    o.ok("start has one function", its[0].shape == (2,), inp, obs)
    fine = [k for k in t.calls if not k[0]]
    for v in its[1:]:
        while pos < len(fine) and not np.array_equal(fine[pos][2], v, equal_nan=True):
            pos += 1
        if not o.ok("accepted sets are results of the inner optimisation", pos < len(fine), inp, obs):
            return
        kinds.append(fine[pos][3:])
        pos += 1
    o.ok("counts of the last accepted set", kinds[-1] == (ns, np_), inp, dict(obs, expected=kinds[-1]))
    vals = [J(v, *k) for v, k in zip(its, kinds)]
    o.ok("accepted parameters are finite", all(np.all(np.isfinite(v)) for v in its[1:]), inp, obs)
    tol = lambda v: 1e-9 * abs(v[0]) + 1e-9 * v[1]
    o.ok("objective never increases", all(b[0] <= a[0] + tol(a) for a, b in zip(vals, vals[1:])), inp, dict(obs, objectives=vals))
    o.ok("returned objective is that of the returned parameters",
         r["fun"] == vals[-1][0] or abs(r["fun"] - vals[-1][0]) <= tol(vals[-1]) or np.isnan(r["fun"]) and np.isnan(vals[-1][0]),
         inp, dict(obs, expected=vals[-1]))
    for i, (v, k) in enumerate(zip(its, kinds)):
        if np.all(np.isfinite(v)):
            w = rep(v, *k)
            o.ok("record belongs to its set", same_report(perf[i], w, p.W(), p.f, 1e-8), dict(inp, set=i), {"got": perf[i], "expected": w})
    # each round continues from its best candidate
    cand = []
    for loc, given, out, a, b in t.calls:
        if loc:
            o.ok("candidates have the size of the model", out.shape == given.shape == (2 * (a + b),), inp)
            cand.append((out, J(out, a, b)))
            continue
        num = [(u, j) for u, j in cand if not np.isnan(j[0])]
        if cand:
            best = min((j[0] for u, j in num), default=np.nan)
            good = [u for u, j in num if j[0] <= best + 2 * tol(j) or j[0] == best] or [u for u, j in cand]
            o.ok("round continues from its best candidate", any(np.array_equal(u, given, equal_nan=True) for u in good), inp,
                 {"continued from": given, "candidates": [(u, j[0]) for u, j in cand]})
        cand = []


def run(o):
    for k in o.rounds(400):
        real = k % 4 == 3
        p = Problem(o, kind=o.pick("radial", "sum1d") if real else o.pick("radial", "sum1d", "sum3d", "cubic"),
                    density="model" if real else o.pick("model", "random", "model"))
        choice = o.pick("pick-one", "pick-two", "pick-two-lose-one")
        maxf = int(o.rng.integers(1, 13 if not real and choice == "pick-one" else 6))
        thr = o.pick(1e-8, 0.0, 1e-3)
        factor = float(o.pick(2.0, 1.5, 10.0, 0.5))
        norm = True
        if real:
            if p.cen is not None:
                p.cen = None
                p.f = p.value(*p.guess(o))
            if np.any(p.f < 1e-200):
                continue
            it = int(o.rng.integers(1, 25))
            if o.rng.random() < 0.5:
                kl, make = True, lambda: KL(p.grid, p.f, choice, l_maxiter=it, g_maxiter=2 * it, spherical=p.spherical)
            else:
                kl, norm = False, bool(o.rng.integers(2))
                make = lambda: LSQ(p.grid, p.f, choice, normalize=norm, l_maxiter=it, g_maxiter=2 * it, spherical=p.spherical)
            mask = 1e-12 if kl else None
            cen = None
        else:
            kl = bool(o.rng.integers(2))
            mask = 1e-12
            cen = p.cen
            fo = (KLDivergenceFPI(p.grid, p.f, p.model, mask_value=mask, spherical=p.spherical) if kl else
                  ScipyFit(p.grid, p.f, p.model, measure=SquaredDifference(), spherical=p.spherical))
            make = lambda: ScriptedRun(o, p, fo, choice, o.pick("good", "any", "any"))

        def g_of(v, a, b):
            h = len(v) // 2
            return ref.atom(p.points, cen, v[:h], v[h:], a, norm)[0]

        def J(v, a, b):
            if not np.all(np.isfinite(v)):
                return (np.inf, 0.0)
            g = g_of(v, a, b)
            if not kl:
                return (p.I((p.f - g) ** 2), p.I((p.f - g) ** 2) + p.I(p.f * p.f))
            q = kl_integrand(p.f, g, mask)
            return (p.I(q), p.I(np.abs(q)) + p.I(p.f))

        def rep(v, a, b):
            g = g_of(v, a, b)
            d = np.abs(p.f - g)
            return np.array([p.I(g), p.I(d), d.max(), p.I(d * d), p.I(kl_integrand(p.f, g, 1e-12 if kl else 1e-18))])
        inp = p.desc(strategy="scripted" if not real else "KL" if kl else "least squares", choice=choice, max_numb_funcs=maxf,
                     factor=factor, d_threshold=thr, normalize=norm, objective="KL" if kl else "least squares")
        o.last = str(inp)[:800]
        t = make()
        old = []
        for turn in range(2 if o.rng.random() < 0.6 else 1):
            t.fresh()
            disp = o.rng.random() < 0.1
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r = t.run(factor, d_threshold=thr, max_numb_funcs=maxf, disp=disp)
            except RuntimeError as e:
                # only a start without a finite objective leaves nothing to report
                s = np.array(t.get_best_one_function_solution(), float)
                o.ok("run accepts well-formed input", real and not np.isfinite(J(s, 1, 0)[0]), inp, repr(e))
                break
            check(o, p, t, J, rep, maxf, dict(inp, run=turn + 1), r)
            for q, n, pf in old:
                o.ok("an earlier result is not changed by another run", len(q["parameters_iteration"]) == n and
                     np.array_equal(q["performance"], pf, equal_nan=True), inp)
            old.append((r, len(r["parameters_iteration"]), np.array(r["performance"])))
            maxf = int(o.rng.integers(1, 6))
