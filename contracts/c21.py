"""The greedy loop, for every strategy (start and inner optimisations are arbitrary functions with their contracts), every
maximum and every number of iterations.  Ghost state of a loop head: counts (ns, np), number q of accepted sets, and for
each accepted set t its parameter vector (identity hid(t)) and counts (hs(t), hp(t)).  Parameter vectors made by contracts
have an identity d: length 2 L(d), entries par(d, j).  The objective for counts and vector is a finite number J(ns, np, d),
infinite or not a number; the report is G_i(ns, np, d)."""
from contracts.fitbase import *
from vc.roles import RoleLoop
from vc.interp import Infeasible

GROUPS = []
MOD = "bfit.greedy"
NAN = tm.mnan(tm.TRUE, ZR)
ASSUMPTIONS = ["the objective of a set with finite parameters may be a number, plus infinity or NaN, but not minus infinity"]
FUNCS = {"pick-one": ("get_next_choices", 1), "pick-two": ("get_two_next_choices", 2), "pick-two-lose-one": ("pick_two_lose_one", 1)}


def par(d, j):
    return app("par", d, j)


def L(d):
    return app("L", d, sort=I)


def ident(k):
    return app("id", num(k), sort=I)


def hid(t):
    return app("hid", t, sort=I)


def hs(t):
    return app("hs", t, sort=I)


def hp(t):
    return app("hp", t, sort=I)


def bad(kind, ns, np_, d):
    return app("J" + kind, ns, np_, d, sort=B)


def J(ns, np_, d):
    return app("J", ns, np_, d)


def literals(cls, name):
    """Integer constants in a method of the code (candidate bounds of counters)."""
    import ast
    fn = cls.ns[name]
    return sorted({n.value for c in ast.walk(fn.node) if isinstance(c, ast.Compare) for n in ast.walk(c)
                   if isinstance(n, ast.Constant) and type(n.value) is int and n.value > 0})[:4]


class World:
    """One greedy object and the contracts of everything the loop calls."""

    def __init__(self, h, choice, script=None):
        self.h, self.choice = h, choice
        self.next, self.inc = FUNCS[choice]
        self.script = script
        s = Fit(h, 1, False, False)
        s.make_model()
        self.fit = s
        h.assume(tm.not_(tm.eq(s.I(lambda k: el(s.f, k)), ZR)))
        self.model = h.call(ATOM, s.x, s.cen, num_s=ONE, num_p=Z, normalize=True)
        self.fo = h.call(FPI, s.make_grid(), s.f, self.model)
        self.o = h.call("stubs.greedystub.AnyStrategy", self.fo, choice)
        self.maxf = tm.sym("max_numb_funcs", I) if script is None else num(script[0])
        h.assume(tm.le(ONE, self.maxf))
        self.literals = literals(h.get(MOD + ".GreedyStrategy"), "run")
        self.factor, self.thr = h.real("factor", pos=True), h.real("d_threshold", nonneg=True)
        c = h.it.contracts
        c[("stubs.greedystub", "AnyStrategy.get_best_one_function_solution")] = self.start
        c[("stubs.greedystub", "AnyStrategy.get_optimization_routine")] = self.optimise
        c[(MOD, "GreedyStrategy._find_best_lparams")] = self.find_best
        c[(MOD, "GreedyStrategy.eval_obj_function")] = self.objective
        for cls in ("_BaseFit", "KLDivergenceFPI"):
            c[("bfit.fit", cls + ".goodness_of_fit")] = self.report
        for nm in ("get_next_choices", "get_two_next_choices", "pick_two_lose_one"):
            c[(MOD, nm)] = lambda it, a, k, nm=nm: self.choices(it, nm, a, k)
        c[(MOD, "remove_redundancies")] = self.merge

    # ------------------------------------------------------------------ parameter vectors
    def fresh_vec(self, it, length):
        d = ident(self.nid)
        self.nid += 1
        self.ids.append(d)
        it.assume(tm.eq(L(d), length))
        return self.vec(d)

    def vec(self, d):
        return Arr(Buf(lambda ix: par(d, ix[0]), (mul(num(2), L(d)),), "f"))

    def which(self, what, *parts):
        """Identity of the vector made of the given parts."""
        h, ctx = self.h, self.h.ctx
        for p in parts:
            if not isinstance(p, Arr) or p.ndim != 1:
                raise ObligationFailed("%s: parameters are not a vector: %r" % (what, p))
        n = add(*[p.shape[0] for p in parts]) if len(parts) > 1 else parts[0].shape[0]
        off, segs = Z, []
        for p in parts:
            segs.append((off, p))
            off = add(off, p.shape[0])
        for d in reversed(self.ids):
            if not ctx.prove_eq(mul(num(2), L(d)), n):
                continue
            good = True
            for o, p in segs:
                j = tm.fresh("j", I)
                ctx.push()
                try:
                    ctx.assume(tm.le(Z, j))
                    ctx.assume(tm.lt(j, p.shape[0]))
                    good = ctx.inconsistent() or ctx.prove_eq(el(p, j), par(d, add(o, j)))
                finally:
                    ctx.pop()
                if not good:
                    break
            if good:
                return d
        # another vector: a new identity defined by its contents
        d = ident(self.nid)
        self.nid += 1
        self.ids.append(d)
        ctx.assume(tm.eq(mul(num(2), L(d)), n))
        for o, p in segs:
            ctx.assume(tm.all_(Z, p.shape[0], lambda j, o=o, p=p: tm.eq(par(d, add(o, j)), el(p, j))))
        return d

    def counts(self, it):
        return tv(it.getattr(self.model, "num_s")), tv(it.getattr(self.model, "num_p"))

    def fits(self, what, it, n):
        ns, np_ = self.counts(it)
        self.h.holds("%s: as many parameters as the model has functions" % what, tm.eq(n, mul(num(2), add(ns, np_))))

    # ------------------------------------------------------------------ contracts
    def start(self, it, args, kw):
        ns, np_ = self.counts(it)
        self.h.holds("the start is made with one s-type function", tm.and_(tm.eq(ns, ONE), tm.eq(np_, Z)))
        it.used_models.add("contract of get_best_one_function_solution (C22)")
        return self.fresh_vec(it, ONE)

    def optimise(self, it, args, kw):
        d = dict(zip(["self", "params", "local"], args))
        d.update(kw)
        p = d["params"]
        self.fits("inner optimisation", it, p.shape[0] if isinstance(p, Arr) else Z)
        it.used_models.add("contract of get_optimization_routine (groups 'inner optimisation')")
        return self.fresh_vec(it, add(*self.counts(it)))

    def find_best(self, it, args, kw):
        d = dict(zip(["self", "param_list", "num_s_choices", "num_p_choices"], args))
        d.update(kw)
        a, b = tv(d["num_s_choices"]), tv(d["num_p_choices"])
        ns, np_ = tv(it.getattr(d["self"], "num_s")), tv(it.getattr(d["self"], "num_p"))
        inc = tv(it.getattr(d["self"], "numb_func_increase"))
        l = d["param_list"]
        n = it.list_len(l)
        n = tm.num(n) if isinstance(n, int) else n
        h = self.h
        h.holds("candidates: counts cover the list", tm.and_(tm.le(Z, a), tm.le(Z, b), tm.lt(Z, add(a, b)), tm.le(add(a, b), n)))
        def size_ok(x, nm):
            if not isinstance(x, Arr):
                raise ObligationFailed("candidate is not a vector: %r" % (x,))
            h.holds("candidates: vector for one kind more (%s)" % nm, tm.eq(x.shape[0], mul(num(2), add(ns, np_, inc))))
        # an arbitrary position of each part of the list
        if l.head is not None:
            t = tm.fresh("t", I)
            h.ctx.push()
            try:
                h.ctx.assume(tm.le(Z, t))
                h.ctx.assume(tm.lt(t, l.head[0]))
                if not h.ctx.inconsistent():
                    size_ok(l.head[1](t), "first part")
            finally:
                h.ctx.pop()
        for k, x in enumerate(l.items):
            if isinstance(x, ListBlock):
                t = tm.fresh("t", I)
                h.ctx.push()
                try:
                    h.ctx.assume(tm.le(Z, t))
                    h.ctx.assume(tm.lt(t, x.n))
                    if not h.ctx.inconsistent():
                        size_ok(x.at(t), "block")
                finally:
                    h.ctx.pop()
            else:
                size_ok(x, "item")
        # the model is left with the counts of some candidate
        ks, kp = tm.fresh("ms", I), tm.fresh("mp", I)
        it.assume(tm.and_(tm.le(Z, ks), tm.le(Z, kp), tm.lt(Z, add(ks, kp))))
        it.call(it.getattr(self.model, "change_numb_s_and_numb_p"), [Num(ks), Num(kp)], {})
        it.used_models.add("contract of _find_best_lparams (groups 'best candidate')")
        v = self.fresh_vec(it, add(ns, np_, inc))
        flag = self.say("s", it, lambda: tm.fresh("s_optimal", B))
        return (Num(tm.fresh("best", R), True), v, flag)

    def say(self, what, it, default):
        if self.script is None:
            return Num(default())
        return self.next_event(what)

    def objective(self, it, args, kw):
        d = dict(zip(["self", "params"], args))
        d.update(kw)
        p = d["params"]
        if not isinstance(p, Arr) or p.ndim != 1:
            raise ObligationFailed("objective of something that is not a vector: %r" % (p,))
        self.fits("objective", it, p.shape[0])
        i = self.which("objective", p)
        ns, np_ = self.counts(it)
        it.used_models.add("contract of eval_obj_function (group 'objective')")
        return self.value(it, ns, np_, i)

    def value(self, it, ns, np_, i):
        if self.script is not None:
            self.scripted(it, ns, np_, i)
        if it.decide(bad("inf", ns, np_, i)):
            it.assume(tm.not_(bad("nan", ns, np_, i)))
            return Num(tm.INF, True)
        it.assume(app("fin", i, sort=B))             # vectors that are not finite have an infinite objective
        if it.decide(bad("nan", ns, np_, i)):
            return Num(NAN, True)
        return Num(J(ns, np_, i), True)

    def report(self, it, args, kw):
        d = dict(zip(["self", "coeffs", "expons"], args))
        d.update(kw)
        c, e = d["coeffs"], d["expons"]
        if not isinstance(c, Arr) or not isinstance(e, Arr):
            raise ObligationFailed("report of something that is not a vector")
        ns, np_ = self.counts(it)
        self.h.holds("report: as many coefficients and exponents as the model has functions",
                     tm.and_(tm.eq(c.shape[0], add(ns, np_)), tm.eq(e.shape[0], add(ns, np_))))
        i = self.which("report", c, e)
        it.used_models.add("contract of goodness_of_fit (C13)")
        return PList([Num(self.G(k, ns, np_, i), True) for k in range(5)])

    def G(self, k, ns, np_, i):
        return app("G%d" % k, ns, np_, i)

    def choices(self, it, name, args, kw):
        d = dict(zip(["factor", "coeffs", "fparams", "coeff_val"], args))
        d.update(kw)
        c, e = d["coeffs"], d.get("fparams", d.get("exps"))
        self.h.holds("candidates: as many coefficients as exponents, at least one",
                     tm.and_(tm.eq(c.shape[0], e.shape[0]), tm.le(ONE, c.shape[0])))
        self.h.holds("candidates: factor is positive", tm.lt(ZR, tv(d["factor"])))
        n = c.shape[0]
        tag = num(self.ncho)
        self.ncho += 1
        inc = {"get_two_next_choices": 2}.get(name, 1)
        cnt = add(n, ONE) if name == "get_next_choices" else app("cnt", tag, sort=I)
        it.assume(tm.le(ONE, cnt))
        it.used_models.add("contract of %s (C19)" % name)
        return PList(head=(cnt, lambda t: Arr(Buf(lambda ix: app("cho", tag, t, ix[0]), (mul(num(2), add(n, num(inc))),), "f"))))

    def merge(self, it, args, kw):
        d = dict(zip(["coeffs", "fparams", "eps"], args))
        d.update(kw)
        c, e = d["coeffs"], d["fparams"]
        self.h.holds("merging: as many coefficients as exponents", tm.eq(c.shape[0], e.shape[0]))
        if self.script is not None:
            m = sub(c.shape[0], ONE) if self.redundant(c) else c.shape[0]
        else:
            m = app("kept", num(self.nmer), sort=I)
        tag = num(self.nmer)
        self.nmer += 1
        it.assume(tm.and_(tm.le(Z, m), tm.le(m, c.shape[0])))
        it.used_models.add("contract of remove_redundancies (C20)")
        return (Arr(Buf(lambda ix: app("mc", tag, ix[0]), (m,), "f")), Arr(Buf(lambda ix: app("me", tag, ix[0]), (m,), "f")))

    # ------------------------------------------------------------------ scripts (bounded runs): one letter per round
    # s/p accepted with one kind more, r redundant, w worse, i infinite, n not a number; capitals: s-type is tried
    def next_event(self, what):
        e = self.script[1][self.round] if self.round < len(self.script[1]) else "w"
        self.round += 1
        self.now = e
        return e in "sRWIN"

    def redundant(self, c):
        return self.now in "rR" and self.h.ctx.prove(tm.lt(Z, c.shape[0])) and not self.merged_once()

    def merged_once(self):
        if self.mround == self.round:
            return True
        self.mround = self.round
        return False

    def scripted(self, it, ns, np_, i):
        key = tm.show(i) + tm.show(ns) + tm.show(np_)
        if key in self.seen:
            return
        self.seen.add(key)
        e = self.now
        if e in "iI":
            it.assume(bad("inf", ns, np_, i))
            return
        it.assume(tm.not_(bad("inf", ns, np_, i)))
        if e in "nN":
            it.assume(bad("nan", ns, np_, i))
            return
        it.assume(tm.not_(bad("nan", ns, np_, i)))
        if e in "sp0":
            self.accepted.append((ns, np_, i))
        if self.best is not None:
            it.assume((tm.lt if e in "wW" else tm.le)(*((self.best, J(ns, np_, i)) if e in "wW" else (J(ns, np_, i), self.best))))
            if e in "sp":
                it.assume(tm.le(tv(self.thr), tm.abs_(sub(J(ns, np_, i), self.best))))
        if e not in "wWrR":
            self.best = J(ns, np_, i)

    # ------------------------------------------------------------------ run
    def reset(self):
        """State of an object that has been used before."""
        self.nid, self.ids, self.ncho, self.nmer = 0, [], 0, 0
        self.past, self.accepted = [], []
        self.round = self.mround = 0
        self.now, self.best, self.seen = "0", None, set()
        it = self.h.it
        it.assume(tm.and_(tm.le(Z, tm.sym("old_s", I)), tm.le(Z, tm.sym("old_p", I)), tm.lt(Z, add(tm.sym("old_s", I), tm.sym("old_p", I)))))
        it.set_attr(self.o, "num_s", Num(tm.sym("old_s", I)))
        it.set_attr(self.o, "num_p", Num(tm.sym("old_p", I)))
        it.set_attr(self.o, "err_arr", PList([PList([Num(app("oldG", num(k)), True) for k in range(5)])]))
        it.call(it.getattr(self.model, "change_numb_s_and_numb_p"), [Num(tm.sym("old_s", I)), Num(tm.sym("old_p", I))], {})

    def go(self):
        self.reset()
        return self.h.meth(self.o, "run", Num(tv(self.factor)), d_threshold=Num(tv(self.thr)), max_numb_funcs=Num(self.maxf))

    # ------------------------------------------------------------------ invariant (see vc/roles.py)
    labels = ["one", "more"]

    def objects(self):
        return [self.o, self.fo, self.model]

    def ghost(self, it):
        ns, np_ = tv(it.getattr(self.o, "num_s")), tv(it.getattr(self.o, "num_p"))
        err = it.getattr(self.o, "err_arr")
        if not isinstance(err, PList):
            raise Unsupported("err_arr is not a list")
        q = it.list_len(err)
        q = num(q) if isinstance(q, int) else q
        if not err.items:
            raise Unsupported("no performance record at the loop head")
        rep = err.items[-1]
        if not isinstance(rep, PList) or rep.head is not None or len(rep.items) != 5:
            raise Unsupported("the last performance record is not a report")
        t = self.h.ctx.canon(tv(rep.items[0]))
        if t.op != "app" or t.args[0] != "G0":
            raise Unsupported("the last performance record is not a report of goodness_of_fit: %s" % tm.show(t)[:200])
        return {"ns": ns, "np": np_, "q": q, "cur": t.args[3], "rs": t.args[1], "rp": t.args[2]}

    def label(self, g, old=None):
        if self.h.ctx.prove(tm.eq(g["q"], ONE)):
            return "one"
        return "more"

    def choose(self, it, labels):
        if len(labels) == 1:
            return labels[0]
        return labels[0] if it.decide(tm.sym("first_class", B)) else labels[1]

    def havoc(self, it, label):
        if label == "one":
            self.ids = [ident(0)]
            g = {"ns": ONE, "np": Z, "q": ONE, "cur": ident(0)}
            self.past = [(ONE, Z, ident(0))]
        else:
            q, ns, np_ = tm.fresh("q", I), tm.fresh("ns", I), tm.fresh("np", I)
            it.assume(tm.and_(tm.le(num(2), q), tm.le(ONE, ns), tm.le(Z, np_)))
            c = hid(sub(q, ONE))
            self.ids = [c]
            it.assume(tm.eq(L(c), add(ns, np_)))
            it.assume(tm.not_(bad("inf", ns, np_, c)))
            it.assume(tm.not_(bad("nan", ns, np_, c)))
            it.assume(app("fin", c, sort=B))
            it.assume(tm.le(add(ns, np_), self.maxf))
            # history (facts about entry t < q - 1 are instances of the roles)
            it.assume(tm.all_(Z, sub(q, ONE), lambda t: tm.and_(tm.eq(L(hid(t)), add(hs(t), hp(t))), tm.le(ONE, hs(t)), tm.le(Z, hp(t)))))
            g = {"ns": ns, "np": np_, "q": q, "cur": c}
            self.past = [(ns, np_, c)]
        return g

    INTS = [("ns", lambda g, w: g["ns"]), ("np", lambda g, w: g["np"]), ("ns+np", lambda g, w: add(g["ns"], g["np"])),
            ("accepted", lambda g, w: g["q"]), ("accepted-1", lambda g, w: sub(g["q"], ONE)),
            ("room", lambda g, w: sub(w.maxf, add(g["ns"], g["np"]))),
            ("2(ns+np)", lambda g, w: mul(num(2), add(g["ns"], g["np"])))]

    def candidates(self, v, g):
        if is_scalar(v) and not isinstance(v, bool):
            t = tv(v)
            if t.sort == I:
                c = [("int", k) for k in range(len(self.INTS))] + [("count",), ("integer",)] + [("atmost", k) for k in self.literals]
                return ([("const", t, v)] if t.op == "num" else []) + c
            if t.sort == R:
                return ([("const", t, v)] if not tm.fv(t) or t in (tv(self.factor), tv(self.thr)) else []) + \
                    [("real",), ("positive",), ("number",)]
            return []
        if isinstance(v, (bool, str)) or v is None:
            return [("same", v)]
        if isinstance(v, Arr) and v.ndim == 1:
            return [("current",)]
        if isinstance(v, PList):
            return [("reports",), ("vectors",), ("objectives",)]
        return []

    def history(self, g, kind):
        """List of the accepted sets."""
        q1 = sub(g["q"], ONE)
        mk = {"reports": lambda s, p, d: PList([Num(self.G(k, s, p, d), True) for k in range(5)]),
              "vectors": lambda s, p, d: self.vec(d),
              "objectives": lambda s, p, d: Num(J(s, p, d), True)}[kind]
        last = mk(g["ns"], g["np"], g["cur"])
        if g["q"] is ONE:
            return PList([last])
        return PList([last], head=(q1, lambda t: mk(hs(t), hp(t), hid(t))))

    def is_value(self, t, ns, np_, d):
        """t is the objective of this set (see value)."""
        ctx = self.h.ctx
        if t is tm.INF:
            return ctx.prove(bad("inf", ns, np_, d))
        if t is NAN:
            return ctx.prove(bad("nan", ns, np_, d))
        return ctx.prove(tm.and_(tm.not_(bad("inf", ns, np_, d)), tm.not_(bad("nan", ns, np_, d)))) and \
            ctx.prove_eq(t, J(ns, np_, d))

    def make(self, r, g, name):
        if r[0] == "const":
            return r[2]
        if r[0] == "same":
            return r[1]
        if r[0] == "int":
            return Num(self.INTS[r[1]][1](g, self))
        if r[0] == "count":
            t = tm.fresh(name, I)
            self.h.assume(tm.le(Z, t))
            return Num(t)
        if r[0] == "integer":
            return Num(tm.fresh(name, I))
        if r[0] == "real":
            return self.value(self.h.it, g["ns"], g["np"], g["cur"])
        if r[0] == "positive":
            t = tm.fresh(name, R)
            self.h.assume(tm.lt(ZR, t))
            return Num(t)
        if r[0] == "number":
            return Num(tm.fresh(name, R), True)
        if r[0] == "current":
            return self.vec(g["cur"])
        return self.history(g, r[0])

    def also(self, r, v, g):
        """The same cell also plays role r."""
        if is_scalar(v) and tv(v) not in (tm.INF, NAN):
            if r[0] == "const" and r[1] not in (tm.INF, NAN):
                self.h.assume(tm.eq(tv(v), r[1]))
            elif r[0] == "int":
                self.h.assume(tm.eq(tv(v), self.INTS[r[1]][1](g, self)))
            elif r[0] == "count":
                self.h.assume(tm.le(Z, tv(v)))
            elif r[0] == "atmost":
                self.h.assume(tm.le(tv(v), num(r[1])))
            elif r[0] == "positive":
                self.h.assume(tm.lt(ZR, tv(v)))
            elif r[0] == "real":
                self.h.assume(tm.eq(tv(v), J(g["ns"], g["np"], g["cur"])))

    def match(self, r, v, g):
        ctx = self.h.ctx
        if r[0] in ("const", "int", "count", "integer", "atmost", "real", "positive", "number"):
            if not is_scalar(v) or isinstance(v, bool):
                return False
            t = tv(v)
            if r[0] == "real":
                return self.is_value(t, g["ns"], g["np"], g["cur"])
            if r[0] == "const":
                return t is r[1] or t.sort == r[1].sort and t not in (tm.INF, NAN) and r[1] not in (tm.INF, NAN) and ctx.prove_eq(t, r[1])
            if t in (tm.INF, tm.NINF, NAN):
                return False
            if r[0] in ("int", "count", "integer", "atmost"):
                if t.sort != I:
                    return False
                if r[0] == "atmost":
                    return ctx.prove(tm.le(t, num(r[1])))
                if r[0] == "integer":
                    return True
                return ctx.prove(tm.le(Z, t)) if r[0] == "count" else ctx.prove_eq(t, self.INTS[r[1]][1](g, self))
            if t.sort != R:
                return False
            if r[0] == "number":
                return True
            return ctx.prove(tm.lt(ZR, t))
        if r[0] == "same":
            return v is r[1] or (isinstance(v, (bool, str)) and v == r[1])
        if r[0] == "current":
            return isinstance(v, Arr) and v.ndim == 1 and self.is_vec(v, g["cur"])
        if not isinstance(v, PList):
            return False
        return self.is_history(v, g, r[0])

    def is_vec(self, v, d):
        ctx = self.h.ctx
        if not ctx.prove_eq(v.shape[0], mul(num(2), L(d))):
            return False
        j = tm.fresh("j", I)
        ctx.push()
        try:
            ctx.assume(tm.le(Z, j))
            ctx.assume(tm.lt(j, v.shape[0]))
            return ctx.prove_eq(el(v, j), par(d, j))
        finally:
            ctx.pop()

    def entry(self, x, kind, s, p, d):
        ctx = self.h.ctx
        if kind == "vectors":
            return isinstance(x, Arr) and x.ndim == 1 and self.is_vec(x, d)
        if kind == "objectives":
            return is_scalar(x) and not isinstance(x, bool) and self.is_value(tv(x), s, p, d)
        return isinstance(x, PList) and x.head is None and len(x.items) == 5 and \
            all(ctx.prove_eq(tv(y), self.G(k, s, p, d)) for k, y in enumerate(x.items))

    def is_history(self, l, g, kind):
        """Entries up to the last one are those of the head the iteration began with; the last is the present set."""
        ctx = self.h.ctx
        it = self.h.it
        n = it.list_len(l)
        n = num(n) if isinstance(n, int) else n
        if not l.items or not ctx.prove_eq(n, g["q"]):
            return False
        if not self.entry(l.items[-1], kind, g["ns"], g["np"], g["cur"]):
            return False
        old = l.items[:-1]
        if l.head is None:
            # accepted sets made on this path since the start (or since the class of one set)
            return all(self.entry(x, kind, *self.past[k]) for k, x in enumerate(old)) if len(old) <= len(self.past) else False
        t = tm.fresh("t", I)
        ctx.push()
        try:
            ctx.assume(tm.le(Z, t))
            ctx.assume(tm.lt(t, l.head[0]))
            if not self.entry(l.head[1](t), kind, hs(t), hp(t), hid(t)):
                return False
        finally:
            ctx.pop()
        return all(self.entry(x, kind, *self.past[len(self.past) - len(old) + k]) for k, x in enumerate(old)) if len(old) <= len(self.past) else False

    def step(self, g, g2):
        """One iteration keeps the set or accepts exactly one more."""
        h = self.h
        same_q = h.ctx.prove_eq(g["q"], g2["q"])
        if same_q:
            h.holds("a rejected round leaves the counts as they were", tm.and_(tm.eq(g["ns"], g2["ns"]), tm.eq(g["np"], g2["np"])))
            h.eq("a rejected round leaves the accepted set as it was", g["cur"], g2["cur"])
            return
        h.eq("one more set is accepted at a time", g2["q"], add(g["q"], ONE))
        h.holds("the counts belong to the accepted set", tm.and_(tm.eq(L(g2["cur"]), add(g2["ns"], g2["np"])),
                                                              tm.eq(g2["rs"], g2["ns"]), tm.eq(g2["rp"], g2["np"])))
        h.holds("within the maximum", tm.le(add(g2["ns"], g2["np"]), self.maxf))
        h.holds("at least one s-type function and no negative count", tm.and_(tm.le(ONE, g2["ns"]), tm.le(Z, g2["np"])))
        h.holds("the objective of the accepted set is a number", tm.and_(tm.not_(bad("inf", g2["ns"], g2["np"], g2["cur"])),
                                                                      tm.not_(bad("nan", g2["ns"], g2["np"], g2["cur"]))))
        h.holds("the accepted parameters are finite", app("fin", g2["cur"], sort=B))
        h.le("the objective does not increase", J(g2["ns"], g2["np"], g2["cur"]), J(g["ns"], g["np"], g["cur"]))


def result(w, v, g):
    """The dictionary returned agrees with the accepted sets."""
    h, it = w.h, w.h.it
    get = lambda k: it.getitem(v, k)
    ns, np_, q, cur = g["ns"], g["np"], g["q"], g["cur"]
    M = add(ns, np_)
    c, e, perf, pars = get("coeffs"), get("exps"), get("performance"), get("parameters_iteration")
    h.eq("returned number of s-type functions", tv(get("num_s")), ns)
    h.eq("returned number of p-type functions", tv(get("num_p")), np_)
    h.holds("never more functions than the maximum", tm.le(M, w.maxf))
    ms, mp = w.counts(it)
    h.holds("the model left behind has these counts", tm.and_(tm.eq(ms, ns), tm.eq(mp, np_)))
    h.shape("number of coefficients", c, (M,))
    h.shape("number of exponents", e, (M,))
    j = h.index("j", M)
    h.eq("coefficients are the first half of the accepted parameters", el(c, j), par(cur, j))
    h.eq("exponents are the second half of the accepted parameters", el(e, j), par(cur, add(M, j)))
    h.is_true("returned objective is that of the returned parameters", w.is_value(tv(get("fun")), ns, np_, cur), repr(get("fun")))
    h.is_true("list of parameters: one entry per accepted set, the last one returned",
              isinstance(pars, PList) and w.is_history(pars, g, "vectors"), repr(pars))
    h.shape("one performance record per accepted set", perf, (q, num(5)))
    for k in range(5):
        h.eq("last performance record %d" % k, el(perf, sub(q, ONE), num(k)), w.G(k, ns, np_, cur))
    if q is not ONE:
        t = h.index("t", sub(q, ONE)) if h.sizes is None else None
        if t is not None:
            for k in range(5):
                h.eq("earlier performance record %d" % k, el(perf, t, num(k)), w.G(k, hs(t), hp(t), hid(t)))


def loop(choice):
    @group("loop %s" % choice, bounds=SCRIPTS, timeout=600)
    def g(h):
        if h.sizes is not None:
            return scripted(h, choice)
        w = World(h, choice)
        rl = RoleLoop(h, w, lambda frame, stmt: frame.func is not None and frame.func.name == "run" and
                      frame.func.mod.name == MOD)
        h.it.while_hook = rl.hook
        n0 = len(h.obl)
        rl.infer(w.go)
        del h.obl[n0:]
        h.notes.append("invariant: " + "; ".join("%s %s = %s" % (l, rl.cells[k].name, " or ".join(str(x) for x in r[:1]))
                                                  for (l, k), r in rl.cand.items()))
        h.run("run", w.go, lambda v: result(w, v, w.ghost(h.it)), raises=lambda o: refused(w, o))
    GROUPS.append(g)


def refused(w, o):
    """An exception is only allowed when the start itself has no finite objective."""
    i = ident(0)
    w.h.holds("no exception unless the start has no finite objective",
              tm.or_(bad("inf", ONE, Z, i), bad("nan", ONE, Z, i)))


def scripted(h, choice):
    """Bounded: the loop itself, with the outcome of every round given by a script."""
    w = World(h, choice, (h.sizes["max"], h.sizes["script"]))

    def post(v):
        ns, np_, d = w.accepted[-1]
        w.past = w.accepted[:-1]
        g = {"ns": ns, "np": np_, "q": num(len(w.accepted)), "cur": d}
        result(w, v, g)
        perf = h.it.getitem(v, "performance")
        for t, (a, b, i) in enumerate(w.past):
            for k in range(5):
                h.eq("earlier performance record %d" % k, el(perf, num(t), num(k)), w.G(k, a, b, i))
    h.run("run " + h.sizes["script"], w.go, post)


def best_candidate(h):
    """_find_best_lparams: candidate b is returned, optimised, with its objective and its kind; no other one is better."""
    w = World(h, "pick-one")
    a, b = h.size("a", 0), h.size("b", 0)
    n = h.size("n", 1)
    ns, np_, inc = h.size("ns", 0), h.size("np", 0), tm.sym("inc", I) if h.sizes is None else num(h.sizes["inc"])
    h.assume(tm.and_(tm.lt(Z, add(a, b)), tm.le(add(a, b), n), tm.le(ONE, inc), tm.lt(Z, add(ns, np_))))
    M = add(ns, np_, inc)
    cho = lambda t: Arr(Buf(lambda ix: app("cho", t, ix[0]), (mul(num(2), M),), "f"))
    lst = PList(head=(n, cho)) if h.sizes is None else PList([cho(num(k)) for k in range(h.sizes["n"])])
    tot = add(a, b)
    OPT = lambda t: app("opt", t, sort=I)
    kind = lambda t: (tm.ite(tm.lt(t, a), add(ns, inc), ns), tm.ite(tm.lt(t, a), np_, add(np_, inc)))
    ctx = h.ctx

    class Spec:
        labels = ["none", "some"]

        def objects(self):
            return w.objects()

        def index_of(self, v):
            """b when v is the optimised candidate b."""
            if not isinstance(v, Arr) or v.ndim != 1:
                return None
            j = tm.fresh("j", I)
            ctx.push()
            try:
                ctx.assume(tm.and_(tm.le(Z, j), tm.lt(j, v.shape[0])))
                t = ctx.canon(el(v, j))
                if t.op == "app" and t.args[0] == "par" and t.args[1].op == "app" and t.args[1].args[0] == "opt":
                    return t.args[1].args[1]
            finally:
                ctx.pop()
            return None

        def ghost(self, it):
            if self.pos is Z:
                return {"k": Z}
            bs = []
            for key, c in rl.cells.items():
                v = None if c.temp else c.get(self.frame)
                for y in v if isinstance(v, tuple) else (v,):
                    x = self.index_of(y)
                    if x is not None:
                        bs.append((c.name, x))
            if not bs:
                raise Unsupported("no optimised candidate is kept")
            return {"k": self.pos, "b": bs[0][1]}

        def label(self, g, old=None):
            return "none" if g["k"] is Z else "some"

        def choose(self, it, labels):
            if len(labels) == 1:
                return labels[0]
            return labels[0] if it.decide(tm.sym("first_class", B)) else labels[1]

        def havoc(self, it, label):
            if label == "none":
                return {"k": Z}
            k, x = tm.fresh("k", I), tm.fresh("b", I)
            it.assume(tm.and_(tm.lt(Z, k), tm.le(k, tot), tm.le(Z, x), tm.lt(x, k)))
            it.assume(tm.eq(L(OPT(x)), M))
            it.assume(tm.all_(Z, k, lambda t: no_better(t, x)))
            return {"k": k, "b": x}

        def val(self, g):
            return kind(g["b"]) + (OPT(g["b"]),)

        def candidates(self, v, g):
            if is_scalar(v) and not isinstance(v, bool) and tv(v).sort == B:
                return [("kind",), ("bool",)]
            if isinstance(v, bool):
                return [("same", v), ("kind",), ("bool",)]
            if is_scalar(v):
                t = tv(v)
                c = [("const", t, v)] if not tm.fv(t) else []
                if t.sort == I:
                    return c + [("ns", 0), ("np", 0), ("ns", 1), ("np", 1)]
                return c + [("value",)]
            if v is None or isinstance(v, str):
                return [("same", v), ("vector",)]
            if isinstance(v, Arr) and v.ndim == 1:
                return [("vector",)]
            return []

        def term(self, r, g):
            if r[1] == 0:
                return ns if r[0] == "ns" else np_
            return kind(sub(g["k"], ONE))[0 if r[0] == "ns" else 1]

        def make(self, r, g, name):
            if r[0] == "const":
                return r[2]
            if r[0] == "same":
                return r[1]
            if r[0] == "kind":
                return Num(tm.lt(g["b"], a))
            if r[0] == "bool":
                return Num(tm.fresh(name, B))
            if r[0] in ("ns", "np"):
                return Num(self.term(r, g))
            if r[0] == "value":
                return w.value(h.it, *self.val(g))
            return w.vec(OPT(g["b"]))

        def also(self, r, v, g):
            if is_scalar(v) and not isinstance(v, bool):
                if r[0] == "const":
                    h.assume(tm.eq(tv(v), r[1]))
                elif r[0] in ("ns", "np") and (r[1] == 0 or "b" in g):
                    h.assume(tm.eq(tv(v), self.term(r, g)))

        def match(self, r, v, g):
            if r[0] == "same":
                return v is r[1] or (isinstance(v, (bool, str)) and isinstance(r[1], type(v)) and v == r[1])
            if r[0] == "vector":
                return "b" in g and isinstance(v, Arr) and v.ndim == 1 and w.is_vec(v, OPT(g["b"]))
            if not is_scalar(v):
                return False
            t = tm.TRUE if v is True else tm.FALSE if v is False else tv(v)
            if r[0] == "const":
                return t is r[1] or t not in (tm.INF, NAN) and r[1] not in (tm.INF, NAN) and t.sort == r[1].sort and ctx.prove_eq(t, r[1])
            if r[0] == "bool":
                return t.sort == B
            if r[0] == "kind":
                if t.sort != B or "b" not in g:
                    return False
                return ctx.prove(tm.and_(tm.or_(tm.not_(t), tm.lt(g["b"], a)), tm.or_(t, tm.le(a, g["b"]))))
            if t.sort != (R if r[0] == "value" else I):
                return False
            if r[0] == "value":
                return "b" in g and w.is_value(t, *self.val(g))
            if r[1] == 1 and "b" not in g:
                return False
            return ctx.prove_eq(t, self.term(r, g))

        def step(self, g, g2):
            k, x = g["k"], g2["b"]
            h.holds("the candidate kept is one of those looked at", tm.and_(tm.le(Z, x), tm.lt(x, g2["k"])))
            h.eq("candidates are taken one after the other", g2["k"], add(k, ONE))
            h.holds("the new candidate is not better than the one kept", no_better(k, x))
            if k is not Z:
                t = h.index("t", k)
                h.holds("no earlier candidate is better than the one kept", no_better(t, x))

    def no_better(t, x):
        """The objective of candidate t is not better than that of candidate x."""
        T, X = kind(t) + (OPT(t),), kind(x) + (OPT(x),)
        return tm.or_(bad("nan", *T), tm.and_(tm.not_(bad("nan", *X)), tm.or_(bad("inf", *T), tm.and_(
            tm.not_(bad("inf", *X)), tm.le(J(*X), J(*T))))))

    def optimise(it, args, kw):
        d = dict(zip(["self", "params", "local"], args))
        d.update(kw)
        p = d["params"]
        w.fits("inner optimisation", it, p.shape[0])
        j = tm.fresh("j", I)
        ctx.push()
        try:
            ctx.assume(tm.and_(tm.le(Z, j), tm.lt(j, p.shape[0])))
            t = ctx.canon(el(p, j))
        finally:
            ctx.pop()
        if t.op != "app" or t.args[0] != "cho":
            raise Unsupported("optimised vector is not one of the candidates: %s" % tm.show(t)[:200])
        t = t.args[1]
        ms, mp = w.counts(it)
        ks, kp = kind(t)
        h.holds("candidate is optimised with the counts of its own kind", tm.and_(tm.eq(ms, ks), tm.eq(mp, kp)))
        it.assume(tm.eq(L(OPT(t)), M))
        w.ids.append(OPT(t))
        return w.vec(OPT(t))
    h.it.contracts[("stubs.greedystub", "AnyStrategy.get_optimization_routine")] = optimise

    def go():
        w.reset()
        it = h.it
        it.set_attr(w.o, "num_s", Num(ns))
        it.set_attr(w.o, "num_p", Num(np_))
        it.set_attr(w.o, "_numb_func_increase", Num(inc))
        del h.it.contracts[(MOD, "GreedyStrategy._find_best_lparams")]
        try:
            return h.meth(w.o, "_find_best_lparams", lst, Num(a), Num(b))
        finally:
            h.it.contracts[(MOD, "GreedyStrategy._find_best_lparams")] = w.find_best

    def post(v):
        val, p, flag = v
        x = Spec().index_of(p)
        if not h.is_true("an optimised candidate is returned", x is not None, repr(p)):
            return
        h.shape("vector for one kind more", p, (mul(num(2), M),))
        h.holds("it is one of the candidates", tm.and_(tm.le(Z, x), tm.lt(x, tot)))
        h.is_true("the value is its objective", w.is_value(tv(val), *(kind(x) + (OPT(x),))), repr(val))
        f = tm.TRUE if flag is True else tm.FALSE if flag is False else tv(flag)
        h.holds("the flag tells its kind", tm.and_(tm.or_(tm.not_(f), tm.lt(x, a)), tm.or_(f, tm.le(a, x))))
        t = h.index("t", tot) if h.sizes is None else None
        for t in [t] if t is not None else [num(k) for k in range(h.sizes["a"] + h.sizes["b"])]:
            if h.sizes is not None:
                # every candidate has been looked at: its status is known on this path or was never asked for
                pass
            h.holds("no candidate is better", no_better(t, x))
    if h.sizes is None:
        rl = RoleLoop(h, Spec(), lambda frame, stmt: frame.func is not None and frame.func.name == "_find_best_lparams")
        h.it.while_hook = rl.hook
        h.it.loop_hook = rl.hook
        n0 = len(h.obl)
        rl.infer(go)
        del h.obl[n0:]
    h.run("_find_best_lparams", go, post)


GROUPS.append(group("best candidate", bounds=[{"a": x, "b": y, "n": x + y + e, "ns": 1, "np": 1, "inc": 1}
                                              for x, y, e in ((1, 0, 0), (0, 1, 0), (1, 1, 1), (2, 1, 0), (1, 2, 0))],
                    timeout=300)(best_candidate))

SCRIPTS = []
for _m, _s in ((1, ""), (2, "s"), (2, "p"), (3, "sp"), (3, "ps"), (4, "spp"), (5, "psps"), (5, "ssss"), (6, "rsRpw"), (9, "swWsrRp"),
               (9, "isNp"), (9, "wwwwws"), (9, "srrrrrs"), (9, "wrWRs"), (9, "iInNs"), (12, "pspspsps"), (8, "wswpwswp"), (4, "sss")):
    SCRIPTS.append({"N": 2, "max": _m, "script": _s})
for _c in FUNCS:
    loop(_c)


# ---------------------------------------------------------------------- the functions used by the loop
LSQ, KLF = MOD + ".GreedyLeastSquares", MOD + ".GreedyKLFPI"
PB = [{"N": 2, "ns": 1, "np": 0}, {"N": 2, "ns": 2, "np": 1}, {"N": 3, "ns": 1, "np": 2}]


class Strat:
    """A strategy of the package with counts (ns, np) and a vector of parameters."""

    def __init__(self, h, cls, spherical=False, **kw):
        self.h, self.cls = h, cls
        self.s = s = Fit(h, 1, False, spherical)
        h.forall(s.N, lambda k: tm.lt(ZR, el(s.f, k)))
        h.assume(tm.not_(tm.eq(s.I(lambda k: el(s.f, k)), ZR)))
        self.ns, self.np_ = h.size("ns", 1), h.size("np", 0)
        s.M = self.M = add(self.ns, self.np_)
        s.install()
        s.cen = Arr(Buf(lambda ix: ZR, (ONE,), "f"))
        self.kw = dict(kw, spherical=spherical)
        self.p = h.arr("p", (mul(num(2), self.M),))
        self.c = Arr(Buf(lambda ix: el(self.p, ix[0]), (self.M,), "f"))
        self.e = Arr(Buf(lambda ix: el(self.p, add(self.M, ix[0])), (self.M,), "f"))
        s.register("0", lambda j: el(self.c, j), lambda j: el(self.e, j))

    def make(self):
        h = self.h
        o = h.call(self.cls, self.s.make_grid(), self.s.f, **self.kw)
        h.meth(h.attr(o, "model"), "change_numb_s_and_numb_p", self.ns, self.np_)
        h.it.set_attr(o, "num_s", Num(self.ns))
        h.it.set_attr(o, "num_p", Num(self.np_))
        return o


def objective(cls, spherical):
    @group("objective %s spherical=%s" % (cls.split(".")[-1], spherical), bounds=PB)
    def g(h):
        mask = h.real("mask", nonneg=True)
        w = Strat(h, cls, spherical, **({"mask_value": mask} if cls == KLF else {}))
        s = w.s
        s.model_nonneg("0")
        f, m = lambda k: el(s.f, k), lambda k: s.g("0", k)
        if cls == LSQ:
            want = s.I(lambda k: tm.pow_(sub(f(k), m(k)), num(2)))
        else:
            want = s.I(lambda k: tm.ite(tm.le(m(k), mask), ZR, mul(f(k), tm.log(div(f(k), m(k))))))
        h.run("finite parameters", lambda: h.meth(w.make(), "eval_obj_function", w.p),
              lambda v: h.eq("objective = integral of the measure", tv(v), want))
        b = h.index("b", mul(num(2), w.M))
        for what, x in (("NaN", NAN), ("inf", tm.INF), ("-inf", tm.NINF)):
            q = Arr(Buf(lambda ix, x=x: tm.ite(tm.eq(ix[0], b), x, el(w.p, ix[0])), (mul(num(2), w.M),), "f"))
            h.run("parameter %s" % what, lambda: h.meth(w.make(), "eval_obj_function", q),
                  lambda v: h.is_true("the objective of parameters that are not finite is infinite", tv(v) is tm.INF, repr(v)))
    GROUPS.append(g)


for _cls in (LSQ, KLF):
    for _s in (False, True):
        objective(_cls, _s)


@group("performance records", bounds=PB)
def records(h):
    for cls in (LSQ, KLF):
        w = Strat(h, cls)
        rep = lambda k: app("rep", num(k))

        def report(it, args, kw):
            d = dict(zip(["self", "coeffs", "expons"], args))
            d.update(kw)
            h.is_true("the report is made for these parameters", w.s.find(d["coeffs"], d["expons"]) == "0")
            return PList([Num(rep(k), True) for k in range(5)])
        for c in ("_BaseFit", "KLDivergenceFPI", "ScipyFit"):
            h.it.contracts[("bfit.fit", c + ".goodness_of_fit")] = report
        old = lambda t: PList([Num(app("old%d" % k, t), True) for k in range(5)])
        for n in (0, None):
            q = num(0) if n == 0 else h.size("q")

            def go():
                o = w.make()
                h.it.set_attr(o, "err_arr", PList([]) if q is Z else PList(head=(q, old)) if h.sizes is None else
                              PList([old(num(k)) for k in range(int(tm.val(q)))]))
                h.meth(o, "store_errors", w.p)
                l = h.attr(o, "err_arr")
                return l, h.it.getitem(l, -1), None if q is Z else h.it.getitem(l, Num(h.index("t", q)))

            def post(v):
                l, last, before = v
                h.eq("one more record", h.len(l), add(q, ONE))
                for k in range(5):
                    h.eq("the new record is last", tv(h.it.getitem(last, k)), rep(k))
                    if before is not None:
                        h.eq("earlier records are kept", tv(h.it.getitem(before, k)), app("old%d" % k, h.index("t", q)))
            h.run("store_errors", go, post)


GROUPS.append(records)


def inner(cls, local):
    @group("inner optimisation %s local=%s" % (cls.split(".")[-1], local), bounds=PB)
    def g(h):
        names = (["l_maxiter", "g_maxiter", "local_tol", "global_tol"] if cls == LSQ else
                 ["l_maxiter", "g_maxiter", "l_eps_coeff", "l_eps_exp", "l_eps_obj", "g_eps_coeff", "g_eps_exp", "g_eps_obj"])
        val = {n: (Num(tm.sym(n, I)) if "maxiter" in n else Num(tm.sym(n))) for n in names}
        kw = dict(val)
        if cls == LSQ:
            kw["with_constraint"] = True
        w = Strat(h, cls, False, **kw)
        s = w.s
        nn = h.arr("nn", (w.M,))
        rc, re_ = h.arr("rc", (w.M,)), h.arr("re", (w.M,))

        def nnls(it, args, kw):
            A, b = args[0], args[1]
            h.shape("matrix of the linear problem", A, (s.N, w.M))
            h.shape("right-hand side of the linear problem", b, (s.N,))
            it.used_models.add("contract of scipy.optimize.nnls: one coefficient per column (assumed)")
            return (nn, Num(tm.sym("residual"), True))
        h.it.ghost["hook:nnls"] = nnls

        def run(it, args, kw):
            order = {LSQ: ["self", "c0", "e0", "opt_coeffs", "opt_expons", "maxiter", "tol", "disp", "with_constraint"],
                     KLF: ["self", "c0", "e0", "opt_coeffs", "opt_expons", "maxiter", "c_threshold", "e_threshold", "d_threshold", "disp"]}[cls]
            d = dict(zip(order, args))
            d.update(kw)
            c, e = d.get("c0", d.get("coeffs")), d.get("e0", d.get("expons"))
            h.shape("number of coefficients", c, (w.M,))
            h.shape("number of exponents", e, (w.M,))
            it.used_models.add("contract of run of the fitting class (C16, C18)")
            return PDict({"coeffs": rc, "exps": re_, "fun": Num(tm.sym("fun"), True), "success": True})
        for c in ("KLDivergenceFPI", "ScipyFit"):
            h.it.contracts[("bfit.fit", c + ".run")] = run

        def post(v):
            h.shape("vector of the same length", v, (mul(num(2), w.M),))
            j = h.index("j", w.M)
            h.eq("coefficients first", el(v, j), el(rc, j))
            h.eq("then exponents", el(v, add(w.M, j)), el(re_, j))
        h.run("get_optimization_routine", lambda: h.meth(w.make(), "get_optimization_routine", w.p, local=local), post)
    GROUPS.append(g)


for _cls in (LSQ, KLF):
    for _l in (False, True):
        inner(_cls, _l)


@group("both strategies use this loop", bounds=[])
def same_loop(h):
    base = h.get(MOD + ".GreedyStrategy")
    for cls in (LSQ, KLF):
        c = h.get(cls)
        for n in ("run", "_find_best_lparams", "_split_parameters", "eval_obj_function", "store_errors"):
            if n in c.ns or base not in c.bases:
                raise Unsupported("%s has its own %s" % (cls, n))
            h.ok("%s.%s is the function verified here" % (cls.split(".")[-1], n), "class hierarchy")


GROUPS.append(same_loop)
