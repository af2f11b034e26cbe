"""run() against a step-by-step replay with _update_params and goodness_of_fit of a second, identical object: same number
of steps, same parameters, same records; success never reported for an exhausted or non-finite run."""
import numpy as np
from fitlib import *


def dmax(a, b):
    return float(np.max(np.abs(a - b)))


class Wavy:
    """A user-defined model (any object with the interface of the models): its coefficient columns depend strongly on
    the parameters, so that the objective of a run goes up and down."""

    def __init__(self, p, amp):
        self.p, self.amp, self.points = p, amp, p.points
        m = p.model
        self.nbasis, self.natoms, self.radii, self.prefactor = m.nbasis, m.natoms, m.radii, m.prefactor
        self.assign_basis_to_center = getattr(m, "assign_basis_to_center", None)

    def evaluate(self, c, e, deriv=False):
        g, d, _ = self.p.full(c, e)
        if not deriv:
            return g
        M = self.nbasis
        d = d.copy()
        d[:, :M] = d[:, :M] * (1 + self.amp * np.sin(37.0 * (c / c.sum() + e / e.sum())))
        return g, d


def run(o):
    o.haunt(KLDivergenceFPI, "_update_params", "run", "goodness_of_fit", p=0.15)
    for k in o.rounds(700):
        p = Problem(o, density=o.pick("model", "random", "zeros", "wild"))
        if k % 3 == 0:
            p.model = Wavy(p, o.pick(0.1, 0.6, 0.95))
        if not p.I(p.f) > 0:
            continue
        kw = dict(spherical=p.spherical, mask_value=o.pick(0.0, 1e-12))
        if o.pick(False, True):
            kw["integral_dens"] = o.pick(1.0, 12.0, p.I(p.f))
        t, t2 = (KLDivergenceFPI(p.grid, p.f, p.model, **kw) for _ in "ab")
        oc, oe = o.pick((True, True), (True, False), (False, True))
        c, e = p.guess(o)
        if o.pick(False, False, False, True):
            c = c * o.pick(1e-200, 1e200, 1e300)
        mi = o.pick(0, 1, 2, 3, 4, 7, 25)
        ct, et, dt = (o.pick(0.0, 1e-12, 1e-6, 1e-2, 0.3) for _ in range(3))
        inp = p.desc(model=type(p.model).__name__, coeffs=c, expons=e, maxiter=mi, thresholds=(ct, et, dt), opt=(oc, oe), **kw)
        o.last = str(inp)[:800]
        with np.errstate(all="ignore"):
            r = t.run(c.copy(), e.copy(), oc, oe, maxiter=mi, c_threshold=ct, e_threshold=et, d_threshold=dt)
            a, b, rep = c, e, []
            while len(rep) < mi:
                if len(rep) >= 1 and not (dmax(a, pa) > ct or dmax(b, pb) > et):
                    break
                if len(rep) >= 2 and not abs(rep[-1][-1] - rep[-2][-1]) > dt:
                    break
                pa, pb = a, b
                a, b = t2._update_params(a, b, oc, oe)
                if not oc:
                    a = pa
                if not oe:
                    b = pb
                rep.append(list(t2.goodness_of_fit(a, b)))
        n = len(rep)
        same = lambda x, y: np.shape(x) == np.shape(y) and np.array_equal(np.asarray(x, float), np.asarray(y, float), equal_nan=True)
        o.ok("number of steps", len(r["fun"]) == n and len(r["performance"]) == n, inp, (len(r["fun"]), n))
        o.ok("returned coefficients", same(r["coeffs"], a), inp, (r["coeffs"], a))
        o.ok("returned exponents", same(r["exps"], b), inp, (r["exps"], b))
        if n:
            o.ok("objective record", same(r["fun"], [x[-1] for x in rep]), inp, r["fun"])
            o.ok("performance record", same(r["performance"], rep), inp, r["performance"])
        if not oc:
            o.ok("fixed coefficients as given", same(r["coeffs"], c), inp, r["coeffs"])
        if not oe:
            o.ok("fixed exponents as given", same(r["exps"], e), inp, r["exps"])
        fin = np.all(np.isfinite(a)) and np.all(np.isfinite(b)) and (not n or np.isfinite(rep[-1][-1]))
        if n == mi and n < 2:
            bad = n == 0 or dmax(a, pa) > ct or dmax(b, pb) > et
        else:
            bad = n == mi and abs(rep[-1][-1] - rep[-2][-1]) > dt and (dmax(a, pa) > ct or dmax(b, pb) > et)
        if not fin:
            o.ok("no success with non-finite values", not r["success"], inp, r["success"])
        elif bad:
            o.ok("no success for an exhausted run", not r["success"], inp, r["success"])
