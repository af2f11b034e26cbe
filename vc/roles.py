"""Loops whose state is described by a specification-level ghost state.

The specification gives the ghost state of a loop head (ghost), the classes of ghost states, an arbitrary ghost state of
a class (havoc), and candidate roles a cell can play (a term or value in the ghost state).  Which cell plays which role is
found by value, never by name: candidates that hold when the loop is first reached are kept, and every candidate that is
not preserved by the loop body from an arbitrary state of the invariant is dropped until nothing changes (Houdini).  The
remaining conjunction is the loop invariant; the final pass assumes it, executes the body once and proves it again."""
from . import terms as tm
from . import values as V
from .values import Arr, Num, PDict, PList, PObj, Poison, Unsupported, is_scalar, tv
from .interp import Break, Continue, Infeasible

MISSING = object()


class Cell:
    """Address of a piece of state: a local of the loop's frame or an attribute of an object made before."""

    temp = False

    def __init__(self, kind, name, obj=None):
        self.kind, self.name, self.obj = kind, name, obj

    @property
    def key(self):
        return (self.kind, id(self.obj) if self.obj is not None else 0, self.name)

    def get(self, frame):
        if self.kind == "local":
            return frame.locals.get(self.name, MISSING)
        return self.obj.attrs.get(self.name, MISSING)

    def put(self, it, frame, v):
        if self.kind == "local":
            it.set_local(frame, self.name, v)
        else:
            it.set_attr(self.obj, self.name, v)

    def __repr__(self):
        return self.name


class RoleLoop:
    def __init__(self, h, spec, where):
        self.h, self.spec, self.where = h, spec, where
        self.mode = "collect"
        self.cells = {}          # key -> Cell, modified by the loop
        self.cand = {}           # (class, key) -> ordered candidate roles
        self.changed = False
        self.used = 0

    # ------------------------------------------------------------------ state
    def modified(self, it, frame, mark, stamp):
        """Addresses of the cells written since mark."""
        lists = {}
        out = {}
        for kind, obj, name, _old in it.journal[mark:]:
            if kind == "events":
                raise Unsupported("external call with an effect inside the loop")
            birth = getattr(obj, "birth", 0)
            if kind == "local":
                if obj is frame:
                    c = Cell("local", name)
                    out[c.key] = c
                elif birth < stamp:
                    raise Unsupported("loop writes a variable of another function")
            elif kind == "attr":
                if birth < stamp:
                    c = Cell("attr", name, obj)
                    out[c.key] = c
            elif birth < stamp:
                if kind == "buf":
                    raise Unsupported("loop writes into an array made before")
                lists[id(obj)] = obj
        for l in lists.values():
            hit = False
            for nm, v in frame.locals.items():
                if v is l:
                    c = Cell("local", nm)
                    out[c.key] = c
                    hit = True
            for o in self.spec.objects():
                for nm, v in o.attrs.items():
                    if v is l:
                        c = Cell("attr", nm, o)
                        out[c.key] = c
                        hit = True
            if not hit:
                raise Unsupported("loop changes a container that has no name")
        return out

    def match(self, role, v, g):
        if role[0] == "poison":
            return True
        if v is MISSING:
            return False
        return self.spec.match(role, v, g)

    # a tuple plays the role ("tuple", candidates of component 0, candidates of component 1, ...)
    def candidates(self, v, g):
        if v is MISSING:
            return [("poison",)]
        if isinstance(v, tuple) and v:
            return [("tuple",) + tuple(tuple(self.candidates(x, g)) for x in v), ("poison",)]
        return self.spec.candidates(v, g) + [("poison",)]

    def refine(self, role, v, g):
        """The role with the candidates that hold; None when it is not played."""
        if role[0] != "tuple":
            return role if self.match(role, v, g) else None
        if not isinstance(v, tuple) or len(v) != len(role) - 1:
            return None
        return ("tuple",) + tuple(tuple(r2 for r2 in (self.refine(r, x, g) for r in rs) if r2 is not None)
                                  for rs, x in zip(role[1:], v))

    def make(self, it, roles, g, name):
        """A value that plays the first role and satisfies the others."""
        r = roles[0]
        if r[0] == "poison":
            return Poison("%s after some iterations" % name)
        if r[0] == "tuple":
            v = tuple(self.make(it, rs, g, "%s[%d]" % (name, n)) for n, rs in enumerate(r[1:]))
        else:
            v = self.spec.make(r, g, name)
        for r2 in roles[1:]:
            if r2[0] not in ("poison", "tuple"):
                self.spec.also(r2, v, g)
        return v

    def filter(self, frame, g, label, cells, note=""):
        """Drop the candidates that do not hold in the present state."""
        for k, c in cells.items():
            v = c.get(frame)
            if self.mode == "start":
                c.temp = v is MISSING          # first bound inside the loop: no role
            elif c.temp:
                v = MISSING
            old = self.cand.get((label, k))
            if old is None:
                old = self.candidates(v, g)
            new = [r2 for r2 in (self.refine(r, v, g) for r in old) if r2 is not None]
            if new != self.cand.get((label, k)):
                self.cand[(label, k)] = new
                self.changed = True

    # ------------------------------------------------------------------ the loop
    def hook(self, it, stmt, frame, seq=None):
        """while loop, or for loop over a sequence of symbolic length (whose position is the ghost k)"""
        if not self.where(frame, stmt):
            return NotImplemented
        self.used += 1
        spec = self.spec
        stamp = next(V._birth)
        mark = len(it.journal)
        pos = [tm.ZERO]
        if seq is None:
            test = lambda: it.truthy(it.eval(stmt.test, frame))
        else:
            test = lambda: it.decide(tm.lt(pos[0], seq.n))

        def body():
            """True when left by break"""
            try:
                if seq is not None:
                    k = pos[0]
                    pos[0] = tm.add(k, tm.ONE)
                    it.assign(stmt.target, seq.get(k), frame)
                it.exec_block(stmt.body, frame)
            except Continue:
                return False
            except Break:
                return True
            return False

        def ghost():
            spec.frame, spec.pos = frame, pos[0]
            return spec.ghost(it)
        g0 = ghost()
        first = spec.label(g0)
        if self.mode == "collect":
            if not test() or body():
                raise Infeasible()
            for k, c in self.modified(it, frame, mark, stamp).items():
                if k not in self.cells:
                    self.cells[k] = c
            raise Infeasible()
        # the invariant holds when the loop is reached
        if self.mode == "start":
            self.filter(frame, g0, first, self.cells)
            raise Infeasible()
        if self.mode == "final":
            for k, c in self.cells.items():
                for r in self.cand[(first, k)]:
                    self.obligation(c, r, c.get(frame), g0, "is established")
        label = spec.choose(it, [l for l in spec.labels if (l, next(iter(self.cells))) in self.cand]
                            if self.mode == "houdini" else spec.labels)
        if self.mode == "final" and (label, next(iter(self.cells))) not in self.cand:
            raise Infeasible()         # a state of this class is never reached
        g = spec.havoc(it, label)
        if seq is not None:
            pos[0] = g["k"]
        for k, c in self.cells.items():
            c.put(it, frame, self.make(it, self.cand[(label, k)], g, c.name))
        if it.ctx.inconsistent():
            raise Infeasible()
        if not test():
            if self.mode == "houdini":
                raise Infeasible()
            if stmt.orelse:
                it.exec_block(stmt.orelse, frame)
            return None
        m2 = len(it.journal)
        left = body()
        if left:
            if self.mode == "houdini":
                raise Infeasible()
            return None
        mod = self.modified(it, frame, m2, stamp)
        for k in mod:
            if k not in self.cells:
                if self.mode == "final":
                    raise Unsupported("loop modifies %r only now" % (mod[k],))
                self.cells[k] = mod[k]
                self.cand.clear()
                raise Restart()
        g2 = ghost()
        l2 = spec.label(g2, g)
        if it.ctx.inconsistent():
            raise Infeasible()
        if self.mode == "houdini":
            self.filter(frame, g2, l2, self.cells)
            raise Infeasible()
        spec.step(g, g2)
        for k, c in self.cells.items():
            for r in self.cand[(l2, k)]:
                self.obligation(c, r, c.get(frame), g2, "is preserved")
        raise Infeasible()

    def obligation(self, c, r, v, g, what):
        if r[0] == "poison":
            return
        if r[0] == "tuple":
            ok = isinstance(v, tuple) and len(v) == len(r) - 1
            self.h.check("loop invariant %s: %s is a %d-tuple" % (what, c.name, len(r) - 1), lambda: ok,
                         lambda: "%r is not" % (v,))
            if ok:
                for n, (rs, x) in enumerate(zip(r[1:], v)):
                    for r2 in rs:
                        self.obligation("%s[%d]" % (c, n), r2, x, g, what)
            return
        ok = self.match(r, v, g)
        name = "loop invariant %s: %s = %s" % (what, c, r)
        self.h.check(name, lambda: ok, lambda: "%r does not play this role" % (v,))

    def infer(self, fn, raises=False):
        """Find the invariant by symbolic execution of fn (which reaches the loop)."""
        it = self.h.it
        for attempt in range(6):
            try:
                self.mode = "collect"
                it.explore(fn, lambda o: None)
                if not self.cells:
                    raise Unsupported("the loop was not found")
                self.mode = "start"
                it.explore(fn, lambda o: None)
                self.mode = "houdini"
                for _ in range(30):
                    self.changed = False
                    it.explore(fn, lambda o: None)
                    if not self.changed:
                        break
                else:
                    raise Unsupported("no loop invariant found")
                break
            except Restart:
                continue
        else:
            raise Unsupported("the set of modified variables does not settle")
        self.mode = "final"


class Restart(Exception):
    pass
