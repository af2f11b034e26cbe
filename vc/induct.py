"""Loops without a bound on the iterations: an invariant in closed form is guessed and then proved inductive.

The loop is executed for the first HEADS iterations (every exit on the way is an ordinary path).  The values of all
cells the loop has modified are compared at the last two loop heads; wherever they differ by the iteration number
only, the state after n iterations is taken to be the same expression in n.  One execution of the loop body from the
state after n iterations, n arbitrary, must then give exactly the state after n + 1 iterations; every exit is
continued from the state after n iterations.  If the guess fails the loop is unsupported (never a violation)."""
import ast

from . import terms as tm
from . import values as V
from .terms import R, I, B
from .values import Arr, Buf, Num, PDict, PList, PObj, Poison, PyRaise, Unsupported, mknum, is_scalar, tv

HEADS = 3
STATS = {}
_CONST = (type(None), bool, int, float, str, V.OpaqueStr, V.PFunc, V.PClass, V.Builtin, V.PType, V.Namespace,
          V.ErrState, V.Bound)


# ------------------------------------------------------------------ immutable pictures of values
def picture(it, v, stamp, seen=()):
    if is_scalar(v) and not isinstance(v, (bool, int, float)):
        return ("num", tv(v), getattr(v, "np", False))
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return ("num", tv(v), False)
    if isinstance(v, _CONST):
        return ("const", v)
    if isinstance(v, Arr):
        return ("arr", v.snap(), v.shape, v.dtype)
    if isinstance(v, tuple):
        return ("tuple", tuple(picture(it, x, stamp) for x in v))
    if isinstance(v, PList):
        return ("list", v.head, tuple(picture(it, x, stamp) for x in v.items), v)
    if isinstance(v, PDict) and v.fn is None:
        return ("dict", tuple(v.items), tuple(picture(it, x, stamp) for x in v.items.values()))
    if isinstance(v, PObj):
        if v.birth < stamp:
            return ("const", v)
        return ("obj", v.cls, tuple(v.attrs), tuple(picture(it, x, stamp) for x in v.attrs.values()))
    if isinstance(v, Poison):
        return ("poison", v)
    raise Unsupported("value %r in the state of an unbounded loop" % (v,))


def anti(a, b, n, h, canon):
    """Term in n that is a for n = h - 1 and b for n = h."""
    memo = {}

    def go(a, b):
        if a is b:
            return a
        k = (a.id, b.id)
        if k in memo:
            return memo[k]
        if a.op == "num" and b.op == "num" and not a.sp and not b.sp and a.sort == b.sort and tm.val(b) - tm.val(a) == 1 and a.sort == I:
            r = tm.add(n, tm.num(int(tm.val(b)) - h))
        elif a.op == "num" or a.op != b.op or a.sort != b.sort:
            raise Unsupported("loop state does not follow a pattern: %s / %s" % (tm.show(a)[:300], tm.show(b)[:300]))
        elif a.op in tm.BINDERS:
            lo1, hi1, v, b1 = tm.open_(a)
            b2 = tm.inst(b, v)
            r = tm.bind(a.op, go(lo1, b.args[1]), go(hi1, b.args[2]), v, go(b1, b2))
        elif a.op == "app" and a.args[0] != b.args[0]:
            raise Unsupported("loop state does not follow a pattern")
        elif a.op in ("add", "mul") and len(a.args) == len(b.args):
            r = tm.rebuild(a, match(list(a.args), list(b.args)))
        elif a.op == "abs":
            try:
                r = tm.abs_(go(a.args[0], b.args[0]))
            except Unsupported:
                r = tm.abs_(go(a.args[0], canon(tm.neg(b.args[0]))))
        else:
            ka, kb = tm.kids(a), tm.kids(b)
            if len(ka) != len(kb) or not ka:
                raise Unsupported("loop state does not follow a pattern: %s / %s" % (tm.show(a)[:300], tm.show(b)[:300]))
            r = tm.rebuild(a, [go(x, y) for x, y in zip(ka, kb)])
        memo[k] = r
        return r

    def match(xs, ys):
        if not xs:
            return []
        order = sorted(range(len(ys)), key=lambda i: 0 if ys[i] is xs[0] else 1)
        err = None
        for i in order:
            try:
                return [go(xs[0], ys[i])] + match(xs[1:], ys[:i] + ys[i + 1:])
            except Unsupported as e:
                err = e
        raise err
    return go(a, b)


class Template:
    """n -> picture, from the pictures at heads h - 1 and h."""

    def __init__(self, a, b, h, n, canon):
        self.n, self.h = n, h
        self.canon = canon
        self.p = self.gen(a, b)

    def gen(self, a, b):
        n, h = self.n, self.h
        if a[0] != b[0]:
            raise Unsupported("loop state changes its kind: %r / %r" % (a[0], b[0]))
        k = a[0]
        if k == "num":
            return ("num", anti(self.canon(a[1]), self.canon(b[1]), n, h, self.canon), b[2])
        if k in ("const", "poison"):
            if a[1] is b[1] or (isinstance(a[1], (str, bool, int, float)) and a[1] == b[1]):
                return b
            if isinstance(a[1], V.OpaqueStr) and isinstance(b[1], V.OpaqueStr):
                return ("poison", Poison("text"))
            return ("poison", Poison("loop constant"))
        if k == "arr":
            if len(a[2]) != len(b[2]) or a[3] != b[3]:
                raise Unsupported("array cell changes its type")
            sh = tuple(anti(self.canon(x), self.canon(y), n, h, self.canon) for x, y in zip(a[2], b[2]))
            ix = tuple(tm.fresh("ix") for _ in sh)
            t = anti(self.canon(a[1](ix)), self.canon(b[1](ix)), n, h, self.canon)
            return ("arr", lambda jx, t=t, ix=ix: tm.subst(t, dict(zip(ix, jx))), sh, b[3])
        if k in ("tuple",):
            if len(a[1]) != len(b[1]):
                raise Unsupported("tuple changes its length")
            return (k, tuple(self.gen(x, y) for x, y in zip(a[1], b[1])))
        if k == "dict":
            if a[1] != b[1]:
                raise Unsupported("dictionary changes its keys")
            return (k, a[1], tuple(self.gen(x, y) for x, y in zip(a[2], b[2])))
        if k == "obj":
            if a[1] is not b[1] or a[2] != b[2]:
                raise Unsupported("object changes its class")
            return (k, a[1], a[2], tuple(self.gen(x, y) for x, y in zip(a[3], b[3])))
        if k == "list":
            if a[1] is not None or b[1] is not None:
                if a[1] is b[1] and len(a[2]) == len(b[2]):
                    return ("list", a[1], tuple(self.gen(x, y) for x, y in zip(a[2], b[2])), b[3])
                raise Unsupported("list of symbolic length grows in an unbounded loop")
            la, lb = len(a[2]), len(b[2])
            if la == lb:
                return ("list", None, tuple(self.gen(x, y) for x, y in zip(a[2], b[2])), b[3])
            if lb - la != 1 or la < 1:
                raise Unsupported("list does not grow by one item per iteration")
            base = lb - h                  # items not made by the loop
            if base < 0:
                raise Unsupported("list does not grow by one item per iteration")
            fixed = b[2][:base]
            item = Template(a[2][-1], b[2][-1], h, tm.fresh("it"), self.canon)
            return ("grow", fixed, item, base, b[3])
        raise Unsupported("loop state of kind %s" % k)

    def at(self, m):
        return inst(self.p, self.n, m)


class Dead:
    def at(self, m):
        return ("poison", Poison("temporary of a loop"))


DEAD = Dead()


def inst(p, n, m):
    s = lambda t: tm.subst(t, {n: m})
    k = p[0]
    if k == "num":
        return ("num", s(p[1]), p[2])
    if k in ("const", "poison"):
        return p
    if k == "arr":
        fn = p[1]
        return ("arr", lambda ix: s(fn(ix)), tuple(s(x) for x in p[2]), p[3])
    if k == "tuple":
        return (k, tuple(inst(x, n, m) for x in p[1]))
    if k == "dict":
        return (k, p[1], tuple(inst(x, n, m) for x in p[2]))
    if k == "obj":
        return (k, p[1], p[2], tuple(inst(x, n, m) for x in p[3]))
    if k == "list":
        return ("list", p[1], tuple(inst(x, n, m) for x in p[2]), p[3])
    if k == "grow":
        return ("grown", p[1], p[2], p[3], p[4], m)
    raise Unsupported(k)


def build(p, target=None):
    """Interpreter value of a picture (lists keep their identity through target)."""
    k = p[0]
    if k == "num":
        return mknum(p[1], p[2])
    if k in ("const", "poison"):
        return p[1]
    if k == "arr":
        a = Arr(Buf(p[1], p[2], p[3]))
        return a
    if k == "tuple":
        return tuple(build(x) for x in p[1])
    if k == "dict":
        return PDict(dict(zip(p[1], (build(x) for x in p[2]))))
    if k == "obj":
        o = PObj(p[1])
        o.attrs.update(zip(p[2], (build(x) for x in p[3])))
        return o
    if k in ("list", "grown"):
        items, head = list_state(p)
        return PList(items, head)
    raise Unsupported(k)


def list_state(p):
    if p[0] == "list":
        return [build(x) for x in p[2]], p[1]
    _, fixed, item, base, _l, m = p
    if base == 0:
        return [], (m, lambda j: build(item.at(tm.add(j, tm.num(1)))))
    ff = [build(x) for x in fixed]
    raise Unsupported("list with earlier items grows in an unbounded loop") if ff else None


# ------------------------------------------------------------------ comparison
def same(it, got, want, name, canon):
    """Prove that picture `got` (after the body) is `want` (template at n + 1)."""
    ctx = it.ctx

    def bad(what):
        raise Unsupported("guessed loop invariant is not inductive (%s: %s)" % (name, what))
    k = want[0]
    if k == "poison":
        return
    if k == "grown":
        _, fixed, item, base, l, m = want
        if got[0] != "list" or got[1] is None or len(got[2]) != 1:
            bad("list")
        ln, fn = got[1]
        if not ctx.prove_eq(tm.add(ln, tm.num(1)), m):
            bad("length of the list")
        same(it, got[2][0], item.at(m), name + " item", canon)
        return
    if got[0] != k:
        bad("kind %s" % got[0])
    if k == "num":
        if not ctx.prove_eq(got[1], want[1]):
            bad("%s is not %s" % (tm.show(ctx.canon(got[1]))[:300], tm.show(ctx.canon(want[1]))[:300]))
    elif k == "const":
        if got[1] is not want[1] and got[1] != want[1]:
            bad("constant")
    elif k == "arr":
        if len(got[2]) != len(want[2]) or not all(ctx.prove_eq(x, y) for x, y in zip(got[2], want[2])):
            bad("shape")
        ix = tuple(tm.fresh("ix") for _ in got[2])
        ctx.push()
        try:
            for x, s in zip(ix, got[2]):
                ctx.assume(tm.le(tm.ZERO, x))
                ctx.assume(tm.lt(x, s))
            if not ctx.prove_eq(got[1](ix), want[1](ix)):
                bad("array element %s is not %s" % (tm.show(ctx.canon(got[1](ix)))[:300], tm.show(ctx.canon(want[1](ix)))[:300]))
        finally:
            ctx.pop()
    elif k == "tuple":
        for i, (x, y) in enumerate(zip(got[1], want[1])):
            same(it, x, y, "%s[%d]" % (name, i), canon)
    elif k == "dict":
        if got[1] != want[1]:
            bad("keys")
        for x, y in zip(got[2], want[2]):
            same(it, x, y, name, canon)
    elif k == "obj":
        if got[1] is not want[1] or got[2] != want[2]:
            bad("object")
        for a, x, y in zip(got[2], got[3], want[3]):
            same(it, x, y, name + "." + a, canon)
    elif k == "list":
        if got[1] is not want[1] or len(got[2]) != len(want[2]):
            bad("list")
        for x, y in zip(got[2], want[2]):
            same(it, x, y, name, canon)


# ------------------------------------------------------------------ the rule
def cells_of(it, mark, stamp):
    out = {}
    for kind, obj, name, _old in it.journal[mark:]:
        if kind == "events":
            raise Unsupported("external call with an effect inside an unbounded loop")
        if kind in ("items", "head"):
            kind2, name = "list", None
            if not isinstance(obj, PList):
                kind2 = "dict"
        else:
            kind2 = kind
        birth = obj.birth if hasattr(obj, "birth") else 0
        if birth >= stamp and kind2 != "local":
            continue
        if kind2 == "local" and birth >= stamp:
            continue
        out[(kind2, id(obj), name)] = (kind2, obj, name)
    return out


def read(it, c, stamp):
    kind, obj, name = c
    if kind == "local":
        return picture(it, obj.locals[name], stamp) if name in obj.locals else ("const", None)
    if kind == "attr":
        return picture(it, obj.attrs[name], stamp)
    if kind == "buf":
        return ("arr", obj.fn, obj.shape, obj.dtype)
    if kind == "list":
        return picture(it, obj, stamp)
    if kind == "dict":
        return picture(it, obj, stamp)
    raise Unsupported("cell kind %s" % kind)


def write(it, c, p):
    kind, obj, name = c
    if kind == "local":
        it.set_local(obj, name, build(p))
    elif kind == "attr":
        it.set_attr(obj, name, build(p))
    elif kind == "buf":
        it.set_buf(obj, p[1])
    elif kind == "list":
        items, head = list_state(p)
        it.set_items(obj, items)
        it.jset("head", obj, None, obj.head)
        obj.head = head
    elif kind == "dict":
        it.set_items(obj, dict(zip(p[1], (build(x) for x in p[2]))))


def dead_at_head(stmt):
    """Names every iteration assigns before it reads them (their value at the loop head is irrelevant to the loop)."""
    out, read_ = set(), set()

    def loads(x):
        return {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and not isinstance(y.ctx, ast.Store)}
    if isinstance(stmt, ast.While):
        read_ |= loads(stmt.test)
    for s in stmt.body:
        if isinstance(s, ast.Assign):
            read_ |= loads(s.value)
            for t in s.targets:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Name):
                        if x.id not in read_:
                            out.add(x.id)
                    else:
                        read_ |= loads(x)
        else:
            read_ |= {y.id for y in ast.walk(s) if isinstance(y, ast.Name)}
    return out


def iterate(it, frame, test, body, stmt):
    """test() -> bool decided on the path; body() may raise Break/Continue.  True when the loop was left by break.

    A loop with exits in its body is verified by two-step induction: the iteration before the arbitrary one is executed
    first, for the facts its path establishes (its own obligations and exits are those of the iteration before)."""
    from .loops import has_break
    dead = dead_at_head(stmt)
    two = has_break(stmt)
    from .interp import Break, Continue, Infeasible
    stamp = next(V._birth)
    mark = len(it.journal)
    old = None
    step = it.ghost.get("loop_step")

    def run_body(n):
        if step is not None:
            step(n)
        try:
            body(n)
        except Continue:
            pass
    for h in range(HEADS + 1):
        if h == HEADS - 1:
            old = {k: read(it, c, stamp) for k, c in cells_of(it, mark, stamp).items()}
        if h == HEADS:
            break
        if not test(tm.num(h)):
            return False
        try:
            run_body(tm.num(h))
        except Break:
            return True
    # state after HEADS iterations
    cells = cells_of(it, mark, stamp)
    new = {k: read(it, c, stamp) for k, c in cells.items()}
    n = tm.fresh("n")
    it.ctx.assume(tm.le(tm.num(HEADS), n))
    canon = lambda t: it.ctx.canon(t)
    # aliases (two names for one list or array) are only kept through list identity
    tpl = {}
    objs = {id(c[1]): k for k, c in cells.items() if c[0] in ("list", "dict")}
    for k, c in cells.items():
        if k not in old:
            raise Unsupported("cell %r is first written in iteration %d" % (c[2], HEADS))
        if c[0] in ("local", "attr"):
            v = c[1].locals.get(c[2]) if c[0] == "local" else c[1].attrs[c[2]]
            if id(v) in objs:
                # a name of a list that is itself a cell
                tpl[k] = None
                continue
        try:
            if c[0] == "local" and c[2] in dead and c[1] is frame and (old[k][0], new[k][0]) != ("num", "num") and \
                    "const" in (old[k][0], new[k][0]):
                raise Unsupported("temporary")
            tpl[k] = Template(old[k], new[k], HEADS, n, canon)
        except Unsupported:
            if not (c[0] == "local" and c[2] in dead and c[1] is frame):
                raise
            tpl[k] = DEAD
    lvl = it.ghost.get("loop_seen")
    def enter(m):
        """Put the state after m iterations in place."""
        share = {}
        for k, c in cells.items():
            if tpl[k] is None:
                continue
            v = None
            if c[0] == "local":
                v = c[1].locals.get(c[2])
            elif c[0] == "attr":
                v = c[1].attrs[c[2]]
            if isinstance(v, Arr):
                q = (id(v.buf), v.imap)
                if q not in share:
                    share[q] = (build(tpl[k].at(m)), v)
                x = share[q][0]
                it.set_local(c[1], c[2], x) if c[0] == "local" else it.set_attr(c[1], c[2], x)
            else:
                write(it, c, tpl[k].at(m))
    first = tm.sub(n, tm.num(1)) if two else n
    enter(first)
    inv = it.ghost.get("loop_invariant")
    if inv is not None:
        inv(first)

    def check_inductive(m, mark):
        for k in cells_of(it, mark, stamp):
            if k not in cells:
                raise Unsupported("the loop modifies %r only later" % (k[2],))
        for k, c in cells.items():
            if tpl[k] is not None:
                same(it, read(it, c, stamp), tpl[k].at(m), str(c[2] or c[0]), canon)
    if two:
        m2 = len(it.journal)
        keep, it.mute = it.mute, True
        try:
            if not test(first):
                raise Infeasible()
            try:
                run_body(first)
            except Break:
                raise Infeasible()
        finally:
            it.mute = keep
        check_inductive(n, m2)
        enter(n)
        if inv is not None:
            inv(n)
    if not test(n):
        return False
    m2 = len(it.journal)
    try:
        run_body(n)
    except Break:
        return True
    check_inductive(tm.add(n, tm.num(1)), m2)
    it.obl.append(("loop invariant is inductive", "discharged", "template + symbolic execution", 0.0, ""))
    raise Infeasible()
