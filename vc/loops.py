"""Loop rules of the verifier.

A ``for`` over a sequence of symbolic length is not unrolled: the body is executed once for an
arbitrary iteration k from a havocked state, and the effect of the whole loop is the unique
solution of the resulting recurrences where one of the rules below applies (otherwise the cell is
left unknown, which is sound).  ``while`` loops are unrolled when their condition is decided and
handed to the contract's invariant otherwise.
"""
import ast

from . import terms as tm
from .terms import R, I, B, U
from .values import *
from . import values as V

Z = tm.ZERO


# ---------------------------------------------------------------- substitution in values
class Sub:
    """Copy of a value with terms substituted; objects older than ``stamp`` are shared."""

    def __init__(self, m, stamp):
        self.m, self.stamp, self.memo = m, stamp, {}

    def t(self, t):
        return tm.subst(t, self.m)

    def fn(self, fn, nd):
        cache = {}

        def g(ix):
            if "t" not in cache:
                ph = tuple(tm.fresh("ph") for _ in range(nd))
                cache["ph"] = ph
                cache["t"] = fn(ph)
            m = dict(self.m)
            m.update(zip(cache["ph"], ix))
            return tm.subst(cache["t"], m)
        return g

    def v(self, x):
        if x is None or isinstance(x, (bool, int, float, str, OpaqueStr, PFunc, PClass, Builtin,
                                       PType, Namespace, ErrState)):
            return x
        if isinstance(x, Num):
            return mknum(self.t(x.t), x.np)
        if isinstance(x, SymStr):
            return SymStr(self.t(x.t))
        if isinstance(x, tuple):
            return tuple(self.v(y) for y in x)
        if isinstance(x, Arr):
            if x.buf.birth < self.stamp and x.imap is None:
                return x
            key = id(x)
            if key not in self.memo:
                r = Arr(Buf(self.fn(x.snap(), x.ndim), [self.t(s) for s in x.shape], x.dtype))
                r.buf.frozen = True
                self.memo[key] = (r, x)
            return self.memo[key][0]
        if isinstance(x, PList):
            if x.birth < self.stamp:
                return x
            head = None
            if x.head is not None:
                n, fn = x.head
                head = (self.t(n), self.valfn(fn))
            r = PList([self.v(y) for y in x.items], head)
            r.frozen = True
            return r
        if isinstance(x, V.ListBlock):
            return V.ListBlock(self.t(x.n), self.valfn(x.at))
        if isinstance(x, PObj):
            if x.birth < self.stamp:
                return x
            key = id(x)
            if key not in self.memo:
                o = PObj(x.cls)
                self.memo[key] = (o, x)
                for a, y in x.attrs.items():
                    o.attrs[a] = self.v(y)
                o.frozen = True
            return self.memo[key][0]
        if isinstance(x, PDict) and x.fn is None:
            r = PDict({k: self.v(y) for k, y in x.items.items()})
            r.frozen = True
            return r
        if isinstance(x, Bound):
            return Bound(x.func, self.v(x.self_))
        if isinstance(x, Poison):
            return x
        raise Unsupported("value %r is built inside a loop of symbolic length" % (x,))

    def valfn(self, fn):
        ph = tm.fresh("ph")
        V.FROZEN.append(ph)
        try:
            val = fn(ph)
        finally:
            V.FROZEN.remove(ph)

        def g(j):
            m = dict(self.m)
            m[ph] = j
            return Sub(m, self.stamp).v(val)
        return g


# ---------------------------------------------------------------- for loops
class Cell:
    n = 0

    def __init__(self, kind, obj, name):
        self.kind, self.obj, self.name = kind, obj, name
        Cell.n += 1
        self.id = "st!%d!%s" % (Cell.n, name if isinstance(name, str) else kind)
        self.sort = None
        self.shape = None
        self.closed = None       # closed form (scalar cells)
        self.mode = None         # scalar | arr | list | poison
        self.step = None         # list: items per iteration
        self.block = False       # list: extended by a list of symbolic length

    @property
    def key(self):
        return (self.kind, id(self.obj), self.name)

    def read(self):
        if self.kind == "local":
            return self.obj.locals.get(self.name, _MISSING)
        if self.kind == "attr":
            return self.obj.attrs.get(self.name, _MISSING)
        if self.kind == "buf":
            return self.obj.fn
        if self.kind == "list":
            return self.obj


_MISSING = object()


def stamp_of(kind, obj):
    if kind in ("local",):
        return obj.birth
    return getattr(obj, "birth", 0)


def modified(it, mark, stamp):
    out = {}
    for kind, obj, name, old in it.journal[mark:]:
        if kind in ("items", "head"):
            if isinstance(obj, PList):
                kind2 = "list"
            else:
                if stamp_of(kind, obj) < stamp:
                    raise Unsupported("dict or set modified in a loop of symbolic length")
                continue
            name = None
        elif kind == "events":
            continue
        elif kind == "global":
            raise Unsupported("module state modified in a loop")
        else:
            kind2 = kind
        if stamp_of(kind2, obj) >= stamp:
            continue
        c = (kind2, id(obj), name)
        if c not in out:
            out[c] = (kind2, obj, name)
    return out


def final_value(it, cell, stamp):
    """Immutable picture of a cell at the end of an iteration."""
    v = cell.read()
    if v is _MISSING:
        return None
    if cell.kind == "buf":
        return ("fn", v)
    if cell.kind == "list":
        return ("list", [freeze(x, stamp) for x in v.items], v.head)
    if isinstance(v, (PObj, PList, PDict)):
        return ("val", freeze(v, stamp), None)
    return ("val", v, v.snap() if isinstance(v, Arr) else None)


def freeze(x, stamp):
    """Copy of the objects created in the iteration (their journal is undone afterwards)."""
    if isinstance(x, (PObj, PList, PDict, tuple)):
        try:
            return Sub({}, stamp).v(x)
        except Unsupported:
            return x
    return x


class Path:
    def __init__(self, conds):
        self.cond = tm.and_(*conds)
        self.vals = {}


def has_break(stmt):
    """Does the body leave the loop early (break, return)?"""
    import ast

    def go(nodes, depth):
        for x in nodes:
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, ast.Return) or (isinstance(x, ast.Break) and depth == 0):
                return True
            inner = depth + 1 if isinstance(x, (ast.For, ast.While)) else depth
            if go(ast.iter_child_nodes(x), inner):
                return True
        return False
    return go(stmt.body, 0)


def for_loop(it, stmt, seq, frame):
    n = seq.n
    if it.loop_hook is not None:
        if it.loop_hook(it, stmt, frame, seq) is not NotImplemented:
            return
    if it.ghost.get("inductive") and has_break(stmt):
        from . import induct

        def body(k):
            it.assign(stmt.target, seq.get(k), frame)
            it.exec_block(stmt.body, frame)
        if not induct.iterate(it, frame, lambda k: it.decide(tm.lt(k, n)), body, stmt) and stmt.orelse:
            it.exec_block(stmt.orelse, frame)
        return
    if stmt.orelse:
        raise Unsupported("for ... else over a symbolic sequence")
    if not it.decide(tm.lt(Z, n)):
        return

    def body(k):
        it.assign(stmt.target, seq.get(k), frame)
        try:
            it.exec_block(stmt.body, frame)
        except PyRaise:
            raise
        except Exception as e:
            if type(e).__name__ == "Continue":
                return
            raise

    def middle(lo, m):
        k = tm.fresh("k")
        run_loop(it, m, k, next(V._birth), lambda: body(tm.add(lo, k)))
    mark, ob = len(it.journal), len(it.obl)
    try:
        return middle(Z, n)
    except Varies as e:
        err = e
    # iterations at the ends that behave differently are executed on their own
    for first, last in ((0, 1), (1, 0), (1, 1)):
        it.undo_to(mark)
        del it.obl[ob:]
        try:
            if first:
                body(Z)
                if last and not it.decide(tm.lt(tm.ONE, n)):
                    return
            m = tm.sub(n, tm.num(first + last))
            if it.decide(tm.lt(Z, m)):
                middle(tm.num(first), m)
            if last:
                body(tm.sub(n, tm.ONE))
            return
        except Varies as e:
            err = e
    raise err


class Varies(Unsupported):
    """Iterations do not all have the same effect on a list."""


def run_loop(it, n, k, stamp, body):
    cells = {}
    outer_mark = len(it.journal)
    rng = tm.and_(tm.le(Z, k), tm.lt(k, n))
    init = {}
    pre = {}                     # closed forms of counters, used from the next round on
    for rounds in range(10):
        # havoc
        hm = len(it.journal)
        ob = len(it.obl)
        for c in cells.values():
            havoc(it, c, k, init[c.key])
        found = {}
        paths = []
        raised = []
        mark = len(it.journal)

        def onpath(o):
            if o.kind == "raise":
                raised.append((tm.and_(*o.conds), o.value))
                return
            if o.kind != "ok":
                raise Unsupported("%s inside a loop of symbolic length" % o.kind)
            if o.events[ev0:]:
                raise Unsupported("external call with an effect inside a symbolic loop")
            p = Path(o.conds)
            for c, x in modified(it, mark, stamp).items():
                found.setdefault(c, x)
            for key, x in {**{c.key: (c.kind, c.obj, c.name) for c in cells.values()}, **found}.items():
                tmp = Cell.__new__(Cell)
                tmp.closed = None
                tmp.kind, tmp.obj, tmp.name = x
                p.vals[key] = final_value(it, tmp, stamp)
            paths.append(p)
        ev0 = len(it.events)
        it.ctx.push()
        try:
            it.ctx.assume(rng)
            it.explore(body, onpath)
            new = [x for key, x in found.items() if key not in cells]
            again = bool(new)
            # kinds of the cells
            for x in new:
                c = Cell(*x)
                cells[c.key] = c
            it.undo_to(hm)
            for x in new:
                c = cells[(x[0], id(x[1]), x[2])]
                tmp = final_value(it, c, stamp)
                init[c.key] = tmp
            for c in cells.values():
                if refine(it, c, init[c.key], [p.vals.get(c.key) for p in paths], stamp):
                    again = True
        finally:
            it.ctx.pop()
        if not again:
            for key, sl in solve(it, n, k, cells, init, paths, stamp, pre, only="scalar").items():
                if key not in pre:
                    pre[key] = sl
                    cells[key].closed = sl.fn
                    again = True
            if not again:
                break
        del it.obl[ob:]          # obligations of exploratory rounds are regenerated
    else:
        raise Unsupported("loop state does not stabilise")
    it.undo_to(outer_mark)
    if not paths and not raised:
        raise Unsupported("loop body has no feasible path")

    # ---- solve
    sol = solve(it, n, k, cells, init, paths, stamp, pre)
    # exceptions
    for cond, exc in raised:
        c = resolve(cond, sol, k)
        ex = tm.ex_(Z, n, lambda t: tm.subst(c, {k: t}))
        if not paths:
            # every iteration raises
            raise exc
        if it.decide(ex):
            raise exc
    # ---- install
    for c in cells.values():
        install(it, c, sol.get(c.key), n, k, init[c.key], paths, sol, stamp)


def havoc(it, c, k, ini):
    if c.mode == "same":
        return
    if c.mode is None or c.mode == "poison" or c.mode == "last":
        if c.kind == "local":
            it.set_local(c.obj, c.name, Poison(c.name))
        elif c.kind == "attr":
            it.jset("attr", c.obj, c.name, c.obj.attrs.get(c.name))
            c.obj.attrs[c.name] = Poison(c.name)
        elif c.kind == "buf":
            it.jset("buf", c.obj, None, c.obj.fn)
            idc, sort = c.id, c.sort or {"f": R, "i": I, "b": B}.get(c.obj.dtype, R)
            c.obj.fn = lambda ix: tm.app(idc, k, *ix, sort=sort)
        else:
            havoc_list(it, c, k)
        return
    if c.mode == "scalar":
        v = mknum(c.closed(k, ()), c.np) if c.closed else Num(tm.app(c.id, k, sort=c.sort), c.np)
    elif c.mode == "arr":
        idc, sort = c.id, c.sort
        v = Arr(Buf(lambda ix: tm.app(idc, k, *ix, sort=sort), c.shape, {R: "f", I: "i", B: "b"}[sort]))
        v.buf.birth = 0
    elif c.mode == "fn":
        it.jset("buf", c.obj, None, c.obj.fn)
        idc, sort = c.id, c.sort
        c.obj.fn = lambda ix: tm.app(idc, k, *ix, sort=sort)
        return
    elif c.mode == "list":
        havoc_list(it, c, k)
        return
    if c.kind == "local":
        it.set_local(c.obj, c.name, v)
    else:
        it.jset("attr", c.obj, c.name, c.obj.attrs.get(c.name))
        c.obj.attrs[c.name] = v


def havoc_list(it, c, k):
    l = c.obj
    it.jset("items", l, None, l.items)
    it.jset("head", l, None, l.head)
    it.no_blocks(l)
    m = c.step
    ln = tm.app(c.id, k, sort=I) if m is None or c.block else tm.add(it.list_len(l), tm.mul(tm.num(m), k))

    def g(j):
        raise Unsupported("element of a list built by the loop is read inside it")
    g.havoc = True
    l.items = []
    l.head = (ln, g)


def refine(it, c, ini, finals, stamp):
    """Choose the representation of a cell; True when it changed."""
    old = (c.mode, c.sort, c.step, c.shape)
    fin = [f for f in finals if f is not None]
    if c.kind == "list":
        c.mode = "list"
        steps = set()
        for f in fin:
            steps.add(len(f[1]))
        if old[0] is None:
            # first look: the list was not yet havocked
            c.block = any(f[2] is not ini[2] for f in fin)
            n0 = len(ini[1])
            steps = {s - n0 for s in steps}
            if c.block:
                c.step = 1
                return True
        c.block = any(isinstance(x, V.ListBlock) for f in fin for x in f[1])
        if len(steps) == 1:
            c.step = steps.pop()
        else:
            raise Varies("number of items appended per iteration varies")
        return old != (c.mode, c.sort, c.step, c.shape)
    if c.kind == "buf":
        c.mode = "fn"
        sorts = {"f": R, "i": I, "b": B}
        c.sort = sorts.get(c.obj.dtype, R)
        return old != (c.mode, c.sort, c.step, c.shape)
    if ini is None:
        c.mode = "last"
        return old[0] != "last"
    vals = [ini[1]] + [f[1] for f in fin]
    if isinstance(ini[1], Arr) and c.mode in (None, "same") and all(v is ini[1] for v in vals):
        c.mode = "same"          # the name stays bound to the same array (in-place update)
        return old[0] != "same"
    if all(is_scalar(v) for v in vals):
        srt = {numish(tv(v)) for v in vals}
        if B in srt and len(srt) > 1:
            srt = {R if R in srt else I}
        s = R if R in srt else (I if I in srt else (B if B in srt else U))
        c.mode, c.sort = "scalar", s
        c.np = any(isinstance(v, Num) and v.np for v in vals)
    elif all(isinstance(v, Arr) for v in vals) and len({v.ndim for v in vals}) == 1:
        # rebinding of arrays: shape must be constant
        sh = vals[0].shape
        ok = True
        for v in vals[1:]:
            for a, b in zip(v.shape, sh):
                if not (a is b or it.ctx.entails(tm.eq(a, b))):
                    ok = False
        if ok:
            c.mode = "arr"
            c.shape = sh
            c.sort = R if any(v.dtype == "f" for v in vals) else {"i": I, "b": B}.get(vals[0].dtype, R)
        else:
            c.mode = "last"
    else:
        c.mode = "last"
    return old != (c.mode, c.sort, c.step, c.shape)


def numish(t):
    return t.sort


def mentions(t, idc):
    for s in tm.subterms(t):
        if s.op == "app" and s.args[0] == idc:
            return True
    return False


def cells_in(t, ids):
    out = set()
    for s in tm.subterms(t):
        if s.op == "app" and s.args[0] in ids:
            out.add(s.args[0])
    return out


class Sol:
    """Closed form of a cell: value before iteration j, as a function of (j, ix)."""

    def __init__(self, fn):
        self.fn = fn


def resolve(t, sol, k):
    """Replace solved state symbols in a term."""
    ids = {s.cellid: s for s in sol.values()}
    for _ in range(50):
        hit = [s for s in tm.subterms(t) if s.op == "app" and s.args[0] in ids]
        if not hit:
            return t

        def pred(s):
            if s.op == "app" and s.args[0] in ids:
                return ids[s.args[0]].fn(s.args[1], tuple(s.args[2:]))
            return None
        t = tm.replace(t, pred)
    return t


def coerce(t, sort):
    if t.sort == sort:
        return t
    if t.sort == B:
        t = tm.ite(t, tm.ONE, tm.ZERO)
        if sort == I:
            return t
    if sort == R and t.sort == I:
        return tm.mul(tm.num(1.0), t) if t.op != "num" else tm.num(float(tm.val(t)))
    return t


def solve(it, n, k, cells, init, paths, stamp, pre=None, only=None):
    order = [c for c in cells.values() if c.mode in ("scalar", "arr", "fn")]
    sol = dict(pre or {})
    pending = [c for c in order if c.key not in sol and (only is None or c.mode == only)]
    ids = {c.id: c for c in order}
    progress = True
    while pending and progress:
        progress = False
        for c in list(pending):
            nd = {"scalar": 0, "arr": len(c.shape or ()), "fn": len(c.obj.shape) if c.kind == "buf" else 0}[c.mode]
            ph = tuple(tm.fresh("ix") for _ in range(nd))
            exprs = []
            ok = True
            for p in paths:
                f = p.vals.get(c.key)
                if f is None:
                    ok = False
                    break
                if c.mode == "scalar":
                    e = coerce(tv(f[1]), c.sort)
                elif c.mode == "arr":
                    e = coerce(f[2](ph), c.sort)
                else:
                    e = coerce(f[1](ph), c.sort)
                exprs.append((p.cond, e))
            if not ok:
                pending.remove(c)
                continue
            dep = set()
            for cd, e in exprs:
                dep |= cells_in(e, ids) | (cells_in(cd, ids) if len(exprs) > 1 else set())
            open_ = [d for d in dep if d != c.id and ids[d].key not in sol and ids[d] in pending]
            if open_:
                continue
            exprs = [(resolve(cd, sol, k), resolve(e, sol, k)) for cd, e in exprs]
            if c.mode == "scalar":
                i0 = coerce(tv(init[c.key][1]), c.sort)
                inif = lambda ix, i0=i0: i0
            elif c.mode == "arr":
                f0 = init[c.key][2]
                inif = lambda ix, f0=f0, s=c.sort: coerce(f0(ix), s)
            else:
                f0 = init[c.key][1]
                inif = lambda ix, f0=f0, s=c.sort: coerce(f0(ix), s)
            fn = solve_one(it, c, n, k, ph, exprs, inif)
            pending.remove(c)
            progress = True
            s = Sol(fn if fn is not None else unknown(c))
            s.cellid = c.id
            if fn is not None:
                sol[c.key] = s
    # mutually dependent cells stay unknown functions of the iteration
    for c in pending:
        pass
    return sol


def unknown(c):
    return lambda j, ix: tm.app(c.id, j, *ix, sort=c.sort)


def solve_one(it, c, n, k, ph, exprs, inif):
    F = tm.app(c.id, k, *ph, sort=c.sort)
    ctx = it.ctx

    def at(t, j, ix):
        m = {k: j}
        m.update(zip(ph, ix))
        return tm.subst(t, m)

    # merged next value
    E = exprs[-1][1]
    for cd, e in reversed(exprs[:-1]):
        E = tm.ite(cd, e, E)
    if mentions_any([cd for cd, _ in exprs[:-1]], c.id):
        self_in_cond = True
    else:
        self_in_cond = False
    if not mentions(E, c.id):
        if k not in tm.fv(E):
            return lambda j, ix: tm.ite(tm.eq(j, Z), inif(ix), at(E, Z, ix))
        return lambda j, ix: tm.ite(tm.eq(j, Z), inif(ix), at(E, tm.sub(j, tm.ONE), ix))
    if self_in_cond:
        d = increments(ctx, exprs, F, c) if c.sort != B else None
        if d is None or mentions(d, c.id):
            return None
        exprs = [(tm.TRUE, tm.add(F, d))]
        E = exprs[0][1]
    if E is F:
        return lambda j, ix: inif(ix)
    # boolean flag
    if c.sort == B:
        fs = []
        for cd, e in exprs:
            if e is F:
                continue
            if not mentions(e, c.id) and e is tm.TRUE:
                fs.append(cd)
            elif e.op == "or" and F in e.args and not any(mentions(x, c.id) for x in e.args if x is not F):
                fs.append(tm.and_(cd, tm.or_(*[x for x in e.args if x is not F])))
            else:
                fs = None
                break
        if fs is not None:
            g = tm.or_(*fs)
            return lambda j, ix: tm.or_(inif(ix), tm.ex_(Z, j, lambda t: at(g, t, ix)))
        fs = []
        for cd, e in exprs:
            if e is F:
                continue
            if e is tm.FALSE:
                fs.append(cd)
            elif e.op == "and" and F in e.args and not any(mentions(x, c.id) for x in e.args if x is not F):
                fs.append(tm.and_(cd, tm.not_(tm.and_(*[x for x in e.args if x is not F]))))
            else:
                return None
        g = tm.or_(*fs)
        return lambda j, ix: tm.and_(inif(ix), tm.not_(tm.ex_(Z, j, lambda t: at(g, t, ix))))
    # accumulation: increment free of the cell itself
    delta = increments(ctx, exprs, F, c)
    if delta is not None:
        pt = point(ctx, delta, k)
        if pt is not None:
            e, d = pt

            def fnp(j, ix):
                ee = at(e, Z, ix)
                return tm.ite(tm.and_(tm.le(Z, ee), tm.lt(ee, j)),
                              tm.add(inif(ix), at(d, ee, ix)), inif(ix))
            if k not in tm.fv(e):
                return fnp
        if k not in tm.fv(delta):
            return lambda j, ix: tm.add(inif(ix), tm.mul(j, at(delta, Z, ix)))
        return lambda j, ix: tm.add(inif(ix), tm.sum_(Z, j, lambda t: at(delta, t, ix)))
    # maximum / minimum
    for op, binder, m2 in (("lt", tm.max_, tm.max2), ("gt", tm.min_, tm.min2)):
        pass
    # overwrite where a condition holds
    dec = decompose(E, F, c.id)
    if dec is None:
        return None
    cond, v = dec
    if mentions(cond, c.id) or mentions(v, c.id):
        return None
    pt = point_cond(ctx, cond, k)
    if pt is not None and k not in tm.fv(pt[0]):
        e, rest = pt

        def fnw(j, ix):
            ee = at(e, Z, ix)
            return tm.ite(tm.and_(tm.le(Z, ee), tm.lt(ee, j), at(rest, ee, ix)), at(v, ee, ix), inif(ix))
        return fnw
    # exclusive writes
    if c.sort != B and exclusive(it, cond, k, n, ph):
        return lambda j, ix: tm.add(inif(ix), tm.sum_(
            Z, j, lambda t: tm.ite(at(cond, t, ix), tm.sub(at(v, t, ix), inif(ix)), tm.num(0) if c.sort == R else Z)))
    return None


def mentions_any(ts, idc):
    return any(mentions(t, idc) for t in ts)


def increments(ctx, exprs, F, c):
    """ite-merged (next - F), or None when it depends on F."""
    out = None
    for cd, e in reversed(exprs):
        d = incr(ctx, e, F, c)
        if d is None:
            return None
        out = d if out is None else tm.ite(cd, d, out)
    return out


def incr(ctx, e, F, c):
    if e is F:
        return tm.num(0) if c.sort == R else Z
    if e.op == "ite" and not mentions(e.args[0], c.id):
        a, b = incr(ctx, e.args[1], F, c), incr(ctx, e.args[2], F, c)
        if a is None or b is None:
            return None
        return tm.ite(e.args[0], a, b)
    if e.op == "add" and F in e.args:
        rest = list(e.args)
        rest.remove(F)
        if not any(mentions(r, c.id) for r in rest):
            return tm.add(*rest)
    d = tm.sub(e, F)
    if mentions(d, c.id):
        d = ctx.canon(d)
    return None if mentions(d, c.id) else d


def decompose(E, F, idc):
    if E is F:
        return tm.FALSE, F
    if E.op == "ite" and not mentions(E.args[0], idc):
        a = decompose(E.args[1], F, idc)
        b = decompose(E.args[2], F, idc)
        if a is None or b is None:
            return None
        c = E.args[0]
        cond = tm.or_(tm.and_(c, a[0]), tm.and_(tm.not_(c), b[0]))
        if a[0] is tm.FALSE:
            v = b[1]
        elif b[0] is tm.FALSE:
            v = a[1]
        else:
            v = tm.ite(c, a[1], b[1])
        return cond, v
    if mentions(E, idc):
        return None
    return tm.TRUE, E


def point(ctx, delta, k):
    """delta = ite(k == e and rest, d, 0)"""
    if delta.op == "ite":
        c, a, b = delta.args
        if b.op == "num" and tm.val(b) == 0:
            p = point_cond(ctx, c, k)
            if p is not None:
                e, rest = p
                z = tm.num(0) if a.sort == R else Z
                return e, tm.ite(rest, a, z)
    return None


def point_cond(ctx, c, k):
    """condition = (k == e) and rest with e free of k."""
    parts = list(c.args) if c.op == "and" else [c]
    for i, p in enumerate(parts):
        s = solve_eq(p, k)
        if s is not None:
            rest = tm.and_(*(parts[:i] + parts[i + 1:]))
            return s, rest
    # bounds  k <= e  and  e < k + 1 in any disguise are left to the point splitter
    return None


def solve_eq(p, k):
    if p.op != "eq" or p.args[0].sort != I:
        return None
    d = tm.sub(p.args[0], p.args[1])
    # d = +-k + rest
    at0 = tm.subst(d, {k: Z})
    at1 = tm.subst(d, {k: tm.ONE})
    sl = tm.sub(at1, at0)
    if k in tm.fv(at0):
        return None
    if sl is tm.ONE:
        e = tm.neg(at0)
    elif sl.op == "num" and tm.val(sl) == -1:
        e = at0
    else:
        return None
    if tm.sub(d, tm.add(at0, tm.mul(sl, k))) is Z:
        return e
    return None


def nonneg_prefix(it, ln, n):
    """Prove that the block lengths are not negative (needed by the offset lemma)."""
    u = tm.fresh("u")
    it.ctx.push()
    try:
        it.ctx.assume(tm.and_(tm.le(Z, u), tm.lt(u, n)))
        ok = it.ctx.entails(tm.le(Z, ln(u)))
    finally:
        it.ctx.pop()
    if not ok:
        raise Unsupported("block lengths of a concatenation may be negative")


def exclusive(it, cond, k, n, ph):
    """At most one iteration writes a given position."""
    ctx = it.ctx
    t, s = tm.fresh("t"), tm.fresh("s")
    ctx.push()
    try:
        ctx.assume(tm.and_(tm.le(Z, t), tm.lt(t, s), tm.lt(s, n)))
        for i in ph:
            ctx.assume(tm.le(Z, i))
        ct, cs = tm.subst(cond, {k: t}), tm.subst(cond, {k: s})
        for f in monotone_lemmas(it, cond, k, t, s, n):
            ctx.assume(f)
        return ctx.entails(tm.not_(tm.and_(ct, cs)))
    finally:
        ctx.pop()


def monotone_lemmas(it, cond, k, t, s, n):
    """S(t) + w(t) <= S(s) for t < s, for every prefix sum of non-negative terms in cond."""
    out = []
    seen = set()
    for x in tm.subterms(cond):
        if x.op != "Sum" or k not in tm.fv(x):
            continue
        if x.args[1] is not Z or x.args[2] is not k:
            continue
        if x in seen:
            continue
        seen.add(x)
        u = tm.fresh("u")
        w = tm.inst(x, u)
        if k in tm.fv(w):
            continue
        it.ctx.push()
        try:
            it.ctx.assume(tm.and_(tm.le(Z, u), tm.lt(u, n)))
            ok = it.ctx.entails(tm.le(Z, w))
        finally:
            it.ctx.pop()
        if not ok:
            continue
        S = lambda j: tm.subst(x, {k: j})
        out.append(tm.le(tm.add(S(t), tm.subst(w, {u: t})), S(s)))
    return out


def install(it, c, s, n, k, ini, paths, sol, stamp):
    if c.kind == "list":
        l = c.obj
        n0 = list(ini[1])
        m = c.step
        if m == 0:
            return
        merged = merge_items(it, c, paths, m)
        if c.block:
            if m != 1:
                raise Unsupported("loop extends a list in several steps per iteration")
            ext = blocks(it, c, merged[0], n, k, sol, stamp)
            it.list_extend(l, PList(head=ext))
            return
        if l.head is not None or (n0 and m != 1):
            items = [None]

            def other(j):
                at = lambda idx, x: Sub({k: idx}, stamp).v(resolve_value(it, x, sol, k, stamp))
                if m == 1:
                    return at(j, merged[0])
                q, r = tm.idiv(j, tm.num(m)), tm.imod(j, tm.num(m))
                return at(q, merged[it.split_int(r, 0, m)])
            it.list_extend(l, PList(head=(tm.mul(tm.num(m), n), other)))
            return
        j0 = len(n0)

        def getter(j):
            def at(idx, x):
                return Sub({k: idx}, stamp).v(resolve_value(it, x, sol, k, stamp))
            jj = tm.sub(j, tm.num(j0)) if j0 else j
            if m == 1:
                if j0 and j.op == "num" and int(tm.val(j)) < j0:
                    return n0[int(tm.val(j))]
                if j0:
                    return it.either(tm.le(tm.num(j0), j), lambda: at(jj, merged[0]), lambda: n0[it.split_int(j, 0, j0)])
                return at(jj, merged[0])
            q, r = tm.idiv(jj, tm.num(m)), tm.imod(jj, tm.num(m))
            return at(q, merged[it.split_int(r, 0, m)])
        if l.frozen:
            it.violations.append(("container passed as argument is modified", it.where))
        it.jset("items", l, None, l.items)
        it.jset("head", l, None, l.head)
        l.items = []
        l.head = (tm.add(tm.num(j0), tm.mul(tm.num(m), n)), getter)
        return
    if c.mode == "same":
        return
    if c.kind == "buf":
        fn = s.fn if s is not None else unknown(c)
        it.set_buf(c.obj, lambda ix: fn(n, ix))
        return
    if c.mode == "scalar":
        fn = s.fn if s is not None else unknown(c)
        v = mknum(fn(n, ()), c.np)
    elif c.mode == "arr":
        fn = s.fn if s is not None else unknown(c)
        v = Arr(Buf(lambda ix: fn(n, ix), c.shape, {R: "f", I: "i", B: "b"}[c.sort]))
    else:
        v = last_value(it, c, n, k, paths, sol, stamp)
    if c.kind == "local":
        it.set_local(c.obj, c.name, v)
    else:
        it.set_attr(c.obj, c.name, v)


def blocks(it, c, blk, n, k, sol, stamp):
    """(length, element) of the concatenation of n lists; list number k is blk (a ListBlock in terms of k)."""
    blk = resolve_value(it, blk, sol, k, stamp)
    ln = lambda t: tm.subst(blk.n, {k: t})
    nonneg_prefix(it, ln, n)
    if k in tm.fv(it.ctx.canon(blk.n)):
        off = lambda t: tm.sum_(Z, t, ln)
    else:
        off = lambda t: tm.mul(t, blk.n)
    name = "blk!" + c.id

    def rule(ctx, t):
        """Block of position t when a hint names it (unique: the lengths are not negative)."""
        if t.args[0] != name:
            return None
        for q in it.ghost.get("block_hint", ()):
            if ctx.entails(tm.and_(tm.le(Z, q), tm.lt(q, n))) and prove_le(ctx, off(q), t.args[1]) \
                    and prove_lt(ctx, t.args[1], tm.add(off(q), ln(q))):
                return ctx.canon(q)
        return None
    it.ctx.rules.append(rule)

    def getter(j):
        q = tm.app(name, j, sort=I)
        # the position lies in exactly one block
        if not V.FROZEN:
            out = tm.or_(tm.lt(j, Z), tm.le(off(n), j))
            it.ctx.assume(tm.or_(out, tm.and_(tm.le(Z, q), tm.lt(q, n), tm.le(off(q), j), tm.lt(j, tm.add(off(q), ln(q))))))
        s = Sub({k: q}, stamp).v(V.ListBlock(blk.n, blk.at))
        return s.at(tm.sub(j, off(q)))
    return (off(n), getter)


def prove_le(ctx, a, b):
    return ctx.entails(tm.le(Z, ctx.canon(tm.sub(b, a))))


def prove_lt(ctx, a, b):
    return ctx.entails(tm.lt(Z, ctx.canon(tm.sub(b, a))))


def resolve_value(it, x, sol, k, stamp):
    class RS(Sub):
        def t(self, t):
            return resolve(t, sol, k)

        def fn(self, fn, nd):
            return lambda ix: resolve(fn(ix), sol, k)
    if not sol:
        return x
    return RS({}, stamp).v(x)


def last_value(it, c, n, k, paths, sol, stamp):
    """Value of a temporary after the loop: the one of the last iteration."""
    try:
        vals = [(p.cond, p.vals[c.key][1]) for p in paths if p.vals.get(c.key) is not None]
        if len(vals) != len(paths) or not vals:
            return Poison(c.name)
        v = vals[-1][1]
        for cd, x in reversed(vals[:-1]):
            v = it.merge_value(cd, x, v)
        if isinstance(v, (PObj, PList, PDict, PSet)):
            return Poison(c.name)
        return Sub({k: tm.sub(n, tm.ONE)}, stamp).v(resolve_value(it, v, sol, k, stamp))
    except (Unsupported, KeyError):
        return Poison(c.name)


def merge_items(it, c, paths, m):
    out = []
    for i in range(m):
        v = None
        for p in reversed(paths):
            x = p.vals[c.key][1]
            x = x[len(x) - m + i]
            v = x if v is None else it.merge_value(p.cond, x, v)
        out.append(v)
    return out


# ---------------------------------------------------------------- comprehensions
def comp_seq(it, seq, fn):
    """[fn(x) for x in seq] for a symbolic sequence: (length, element getter)."""
    k = tm.fresh("k")
    n = seq.n
    if not it.decide(tm.lt(Z, n)):
        return (Z, lambda j: (_ for _ in ()).throw(Unsupported("element of an empty list")))
    stamp = next(V._birth)
    outs = []
    raised = []
    skipped = []
    mark = len(it.journal)

    def onpath(o):
        if o.kind == "raise":
            raised.append((tm.and_(*o.conds), o.value))
            return
        ch = [x for x in modified(it, mark, stamp).values()
              if not (x[0] == "local")]
        if ch:
            raise Unsupported("comprehension with side effects over a symbolic sequence")
        if o.value is SKIP:
            skipped.append(1)
            return
        outs.append((tm.and_(*o.conds), o.value))
    it.ctx.push()
    try:
        it.ctx.assume(tm.and_(tm.le(Z, k), tm.lt(k, n)))
        it.explore(lambda: fn(seq.get(k)), onpath)
        if outs:
            v = outs[-1][1]
            for cd, x in reversed(outs[:-1]):
                v = it.merge_value(cd, x, v)
    finally:
        it.ctx.pop()
    for cd, e in raised:
        ex = tm.ex_(Z, n, lambda t: tm.subst(cd, {k: t}))
        if not outs or it.decide(ex):
            raise e
    cache = {}

    def getter(j):
        if j not in cache:
            cache[j] = Sub({k: j}, stamp).v(v)
        return cache[j]
    if skipped:
        if not outs:
            return (Z, lambda j: (_ for _ in ()).throw(Unsupported("element of an empty list")))
        taken = tm.or_(*[c for c, _ in outs])
        mask = lambda j: tm.subst(taken, {k: j})
        from .npmodel import where_index, mkarr
        w = where_index(it, mkarr(lambda ix: mask(ix[0]), (n,), "b"))
        g = Picked((w.shape[0], lambda j: getter(w.get((j,)))))
        g.sel = (n, mask, getter)
        return g
    return (n, getter)


class Picked(tuple):
    """Head of a list that holds the entries of a sequence that pass a test."""


SKIP = object()


# ---------------------------------------------------------------- while loops
def while_loop(it, stmt, frame):
    if it.while_hook is not None:
        r = it.while_hook(it, stmt, frame)
        if r is not NotImplemented:
            return
    if it.ghost.get("inductive"):
        from . import induct
        if not induct.iterate(it, frame, lambda n: it.truthy(it.eval(stmt.test, frame)),
                              lambda n: it.exec_block(stmt.body, frame), stmt) and stmt.orelse:
            it.exec_block(stmt.orelse, frame)
        return
    limit = 40
    for i in range(limit):
        if not it.truthy(it.eval(stmt.test, frame)):
            if stmt.orelse:
                it.exec_block(stmt.orelse, frame)
            return
        from .interp import Break, Continue
        try:
            it.exec_block(stmt.body, frame)
        except Break:
            return
        except Continue:
            continue
    raise Unsupported("while loop without invariant does not terminate in %d steps" % limit)
