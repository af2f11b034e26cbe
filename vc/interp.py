"""Symbolic interpreter of the Python source under /repo/bfit.

The functions that run are parsed from the working tree on every run and executed on symbolic
values; nothing of them is rewritten by hand.  External libraries are replaced by the contracts of
npmodel.py, calls into functions that have their own contract by that contract.
"""
import ast
import os
import builtins
import itertools

from . import terms as tm
from .terms import R, I, B, U
from .prover import Ctx, atoms_of, force
from .values import *
from . import values as V
from . import textmodel
LAZY = (textmodel.TextFile, textmodel.LazyGen)

REPO = os.environ.get("BFIT_REPO", "/repo")
MISSING = object()


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Infeasible(Exception):
    pass


class Frame:
    __slots__ = ("locals", "mod", "parent", "names", "nonlocals", "func", "birth")

    def __init__(self, mod, parent=None, names=(), func=None):
        self.locals = {}
        self.mod = mod
        self.parent = parent
        self.names = names
        self.nonlocals = set()
        self.func = func
        self.birth = next(V._birth)


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.ns = {}
        self.birth = 0


class Path:
    """One explored path."""

    def __init__(self):
        self.prefix = []
        self.decisions = []       # (cond, bool) real splits, in order
        self.pos = 0
        self.setup = False        # the set-up of a group rather than an explored call


class Outcome:
    def __init__(self, kind, value=None, conds=()):
        self.kind, self.value, self.conds = kind, value, list(conds)

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.value)


def assigned_names(node):
    out = set()

    class Vv(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            # comprehension variables are local to the comprehension (walrus leaks are not used)
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Global(self, n):
            pass
    v = Vv()
    for s in node.body if isinstance(node.body, list) else [node.body]:
        v.visit(s)
    return out


EXC_PARENTS = {
    "ValueError": "Exception", "TypeError": "Exception", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "AttributeError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "AssertionError": "Exception", "StopIteration": "Exception",
    "FileNotFoundError": "OSError", "OSError": "Exception", "NameError": "Exception",
    "UnboundLocalError": "NameError", "OverflowError": "ArithmeticError",
    "LinAlgError": "ValueError", "FloatingPointError": "ArithmeticError",
    "Exception": "BaseException", "BaseException": None,
}


class Interp:
    MAXPATHS = 4000

    def __init__(self, ctx=None, src_root=None):
        from . import npmodel
        self.ctx = ctx or Ctx()
        self.root = src_root or REPO
        self.journal = []
        self.modules = {}
        self.contracts = {}          # (module, qualname) -> fn(interp, args, kwargs)
        self.path = None
        self.violations = []         # frame violations seen on this path: (what, where)
        self.trace = []
        self.steps = 0
        self.called = set()          # real functions interpreted (qualified names)
        self.used_models = set()     # external contracts used
        self.while_hook = None
        self.loop_hook = None
        self.where = ""
        self.builtins = npmodel.builtins_table(self)
        self.externals = npmodel.externals_table(self)
        self.npm = npmodel
        self.ghost = {}
        self.files = None            # text of the file at a path: files(interp, path), set by the specification
        self.read_number = None      # value of float(text): read_number(text, value)
        self.spelling = {}           # symbolic strings whose letters (but not their case) are known
        self.mute = False            # obligations of the current stretch are proved elsewhere
        self.obl = []                # obligations recorded while interpreting (shared with the harness)
        self.inline_depth = 0
        self.events = []

    # ================================================================ journal
    def jset(self, kind, obj, name, old):
        self.journal.append((kind, obj, name, old))

    def undo_to(self, mark):
        while len(self.journal) > mark:
            kind, obj, name, old = self.journal.pop()
            if kind == "local":
                if old is MISSING:
                    obj.locals.pop(name, None)
                else:
                    obj.locals[name] = old
            elif kind == "attr":
                if old is MISSING:
                    obj.attrs.pop(name, None)
                else:
                    obj.attrs[name] = old
            elif kind == "buf":
                obj.fn = old
            elif kind == "items":
                obj.items = old
            elif kind == "head":
                obj.head = old
            elif kind == "global":
                if old is MISSING:
                    obj.ns.pop(name, None)
                else:
                    obj.ns[name] = old
            elif kind == "events":
                del self.events[old:]

    def set_local(self, frame, name, v):
        self.jset("local", frame, name, frame.locals.get(name, MISSING))
        frame.locals[name] = v

    def set_attr(self, obj, name, v):
        if obj.frozen:
            self.violations.append(("attribute %s of an argument object is reassigned" % name, self.where))
        self.jset("attr", obj, name, obj.attrs.get(name, MISSING))
        obj.attrs[name] = v

    def set_buf(self, buf, fn):
        if buf.frozen:
            self.violations.append(("array %s is modified in place" % (buf.name or "argument"), self.where, buf, buf.fn))
        self.jset("buf", buf, None, buf.fn)
        buf.fn = fn

    def set_items(self, c, items):
        if c.frozen:
            self.violations.append(("container passed as argument is modified", self.where))
        self.jset("items", c, None, c.items)
        c.items = items

    def event(self, *e):
        self.jset("events", None, None, len(self.events))
        self.events.append(e)

    # ================================================================ path exploration
    def decide(self, c):
        """Truth value of a boolean term on this path (splitting when open)."""
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        c = self.ctx.rw(c)
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        if c.op == "and":
            return all(self.decide(x) for x in c.args)
        if c.op == "or":
            return any(self.decide(x) for x in c.args)
        r = self.ctx.truth(c)
        if r is not None:
            return r
        if V.FROZEN and any(x in tm.fv(c) for x in V.FROZEN):
            raise Unsupported("case distinction on the position of a list element: %s" % tm.show(c)[:200])
        p = self.path
        if p is None:
            raise Unsupported("decision outside exploration: %s" % tm.show(c)[:200])
        if p.pos < len(p.prefix):
            val = p.prefix[p.pos]
        else:
            val = True
        p.pos += 1
        p.decisions.append((c, val))
        self.ctx.assume(c if val else tm.not_(c))
        return val

    def assume(self, c):
        self.ctx.assume(c)

    def explore(self, fn, onpath=None, limit=None):
        """Run fn over all paths; onpath(outcome) is called inside each path's context."""
        stack = [[]]
        outs = []
        outer = self.path
        count = 0
        base_v = len(self.violations)
        while stack:
            prefix = stack.pop()
            count += 1
            if count > (limit or self.MAXPATHS):
                raise Unsupported("too many paths")
            p = Path()
            p.prefix = prefix
            self.path = p
            mark = len(self.journal)
            self.ctx.push()
            try:
                try:
                    v = fn()
                    o = Outcome("ok", v)
                except PyRaise as e:
                    o = Outcome("raise", e)
                except Return as e:
                    o = Outcome("return", e.v)
                except Break:
                    o = Outcome("break")
                except Continue:
                    o = Outcome("continue")
                except Infeasible:
                    o = None
                if o is not None and self.ctx.inconsistent():
                    o = None
                if o is not None:
                    o.conds = [c if b else tm.not_(c) for c, b in p.decisions]
                    o.violations = self.violations[base_v:]
                    o.events = list(self.events)
                    self.path = None if outer is None or outer.setup else outer
                    self.path = _NoSplit(self) if False else self.path
                    if onpath is not None:
                        r = onpath(o)
                        if r is not None:
                            o.result = r
                    outs.append(o)
            finally:
                self.ctx.pop()
                self.undo_to(mark)
                del self.violations[base_v:]
                self.path = outer
            for i in range(len(prefix), len(p.decisions)):
                stack.append([d for _, d in p.decisions[:i]] + [not p.decisions[i][1]])
        return outs

    # ================================================================ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is None and name.startswith("stubs."):
            # interpreted specification code of /verif/contracts/stubs
            here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
            self.modules[name] = m = Module(name, os.path.join(here, *name.split(".")) + ".py")
            fr = Frame(m)
            fr.locals = m.ns
            m.ns["__name__"] = name
            self.exec_top(ast.parse(open(m.path).read()).body, fr)
            self.journal = [j for j in self.journal if j[1] is not fr]
        if m is None:
            rel = name.split(".")
            path = os.path.join(self.root, *rel) + ".py"
            if not os.path.exists(path):
                path = os.path.join(self.root, *rel, "__init__.py")
            if not os.path.exists(path):
                raise Unsupported("module %s not found" % name)
            m = Module(name, path)
            self.modules[name] = m
            with open(path, encoding="utf8") as f:
                src = f.read()
            tree = ast.parse(src, path)
            fr = Frame(m)
            fr.locals = m.ns
            m.ns["__name__"] = name
            m.ns["__file__"] = path
            saved = self.path
            self.exec_top(tree.body, fr)
            self.path = saved
            self.journal = [j for j in self.journal if j[1] is not fr]
        return m

    def exec_top(self, body, fr):
        """The statements of a module.  What a definition outside the models' reach binds may not be used."""
        for s in body:
            try:
                self.exec(s, fr)
            except Unsupported as e:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    names = [s.name]
                elif isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
                    names = [t.id for t in s.targets]
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    names = [s.target.id]
                else:
                    raise
                for n in names:
                    fr.locals[n] = Poison(n, str(e))

    def get(self, dotted):
        """Value of module.attr[.attr...]"""
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            name = ".".join(parts[:i])
            p = os.path.join(self.root, *parts[:i])
            if os.path.exists(p + ".py") or name.startswith("stubs."):
                v = self.module(name)
                for a in parts[i:]:
                    v = self.getattr(v, a)
                return v
        raise Unsupported("cannot find " + dotted)

    # ================================================================ names
    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why or "read of %s, undetermined after a loop" % name)
                return v
            if name in f.names and f is frame and name not in f.nonlocals:
                raise PyRaise("UnboundLocalError", name)
            f = f.parent
        if name in frame.mod.ns:
            v = frame.mod.ns[name]
            if isinstance(v, Poison):
                raise Unsupported(v.why or "read of %s" % name)
            return v
        if name in self.builtins:
            return self.builtins[name]
        if name in EXC_PARENTS:
            return PClass(name, [], {}, None)
        if hasattr(builtins, name):
            raise Unsupported("%s has no contract" % name)
        raise PyRaise("NameError", name)

    # ================================================================ statements
    def exec_block(self, body, frame):
        for s in body:
            self.exec(s, frame)

    def exec(self, s, frame):
        self.steps += 1
        if self.steps > 3000000:
            raise Unsupported("interpretation budget exhausted")
        self.where = "%s:%d" % (os.path.basename(frame.mod.path), s.lineno)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (type(s).__name__, self.where))
        m(s, frame)

    def x_Pass(self, s, f):
        pass

    def x_Global(self, s, f):
        raise Unsupported("global statement")

    def x_Nonlocal(self, s, f):
        f.nonlocals.update(s.names)

    def x_Expr(self, s, f):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, f)

    def x_Import(self, s, f):
        for a in s.names:
            v = self.import_module(a.name)
            if a.asname is None and "." in a.name:
                v = self.import_module(a.name.split(".")[0])
            self.set_local(f, (a.asname or a.name).split(".")[0] if a.asname is None else a.asname, v)

    def x_ImportFrom(self, s, f):
        modname = s.module or ""
        if s.level:
            base = f.mod.name.split(".")[:-s.level]
            modname = ".".join(base + ([s.module] if s.module else []))
        if modname == "bfit" or modname.startswith("bfit."):
            if os.path.exists(os.path.join(self.root, *modname.split(".")) + ".py"):
                m = self.module(modname)
                for a in s.names:
                    if a.name == "*":
                        for k, v in list(m.ns.items()):
                            if not k.startswith("_"):
                                self.set_local(f, k, v)
                    else:
                        if a.name not in m.ns:
                            raise PyRaise("ImportError", a.name)
                        self.set_local(f, a.asname or a.name, m.ns[a.name])
                return
            for a in s.names:
                self.set_local(f, a.asname or a.name, self.module(modname + "." + a.name))
            return
        m = self.import_module(modname)
        for a in s.names:
            try:
                v = self.getattr(m, a.name)
            except Unsupported as e:
                v = Poison(a.name, str(e))
            self.set_local(f, a.asname or a.name, v)

    def import_module(self, name):
        if name == "bfit" or name.startswith("bfit."):
            return self.module(name)
        if name in self.externals:
            return self.externals[name]
        return Namespace(name, {})

    def x_FunctionDef(self, s, f):
        self.set_local(f, s.name, self.make_func(s, f))

    def make_func(self, s, f, name=None):
        a = s.args
        defaults = [self.eval(d, f) for d in a.defaults]
        kwd = {k.arg: self.eval(d, f) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fn = PFunc(s, f.mod, f if f.func is not None or f.parent is not None else None,
                   name or getattr(s, "name", "<lambda>"), defaults=defaults, kwdefaults=kwd)
        v = fn
        for d in reversed(getattr(s, "decorator_list", [])):
            dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if dn == "property":
                fn.kind = "property"
            elif dn == "staticmethod":
                fn.kind = "static"
            elif dn == "classmethod":
                fn.kind = "classmethod"
            elif dn in ("abstractmethod", "wraps"):
                pass
            elif dn == "setter":
                fn.kind = "setter"
            elif dn == "cached_property":
                fn.kind, fn.stored = "property", True
            elif dn in ("lru_cache", "cache") or isinstance(d, ast.Call) and isinstance(d.func, (ast.Name, ast.Attribute)) \
                    and (getattr(d.func, "id", None) or getattr(d.func, "attr", None)) == "lru_cache":
                fn.cache = PList()
            else:
                v = self.call(self.eval(d, f), [v], {})
        return v

    def x_ClassDef(self, s, f):
        bases = []
        for b in s.bases:
            v = self.eval(b, f)
            if isinstance(v, PClass):
                bases.append(v)
        fr = Frame(f.mod, f if f.func is not None else None)
        cls = PClass(s.name, bases, {}, f.mod)
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                fn = self.make_func(st, fr)
                if isinstance(fn, PFunc):
                    fn.cls = cls
                    fn.closure = None if f.func is None else f
                    if fn.kind == "setter":
                        cls.ns["%s!set" % st.name] = fn
                        continue
                cls.ns[st.name] = fn
                fr.locals[st.name] = fn
            else:
                self.exec(st, fr)
                for k, v in fr.locals.items():
                    cls.ns.setdefault(k, v)
        v = cls
        for d in reversed(s.decorator_list):
            dn = d.func if isinstance(d, ast.Call) else d
            if getattr(dn, "id", getattr(dn, "attr", None)) == "dataclass":
                self.dataclass(s, cls, fr)
            else:
                v = self.call(self.eval(d, f), [v], {})
        self.set_local(f, s.name, v)

    def dataclass(self, s, cls, fr):
        """dataclasses.dataclass: the generated __init__ (comparison and order of instances have no contract)."""
        fields, known = [], list(getattr(cls, "fields", []))
        for c in cls.mro()[1:]:
            known = list(getattr(c, "fields", [])) or known
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if isinstance(st.value, ast.Call):
                    raise Unsupported("field of a dataclass with a computed default")
                fields.append(st.target.id)
        fields = [n for n in known if n not in fields] + fields
        cls.fields = fields

        def init(it, a, k):
            o, vals = a[0], dict(zip(fields, a[1:]))
            if len(a) - 1 > len(fields) or any(n in vals or n not in fields for n in k):
                raise PyRaise("TypeError", "arguments of a dataclass")
            vals.update(k)
            for n in fields:
                if n not in vals:
                    vals[n] = cls.lookup(n)
                    if vals[n] is None and not any(n in c.ns for c in cls.mro()):
                        raise PyRaise("TypeError", "missing argument")
                it.set_attr(o, n, vals[n])
            post = cls.lookup("__post_init__")
            if post is not None:
                it.call(Bound(post, o), [], {})
        if "__init__" not in cls.ns:
            cls.ns["__init__"] = Builtin("dataclass.__init__", init)

        def eq(it, a, k):
            raise Unsupported("comparison of dataclass instances")
        cls.ns.setdefault("__eq__", Builtin("dataclass.__eq__", eq))

    def x_Return(self, s, f):
        raise Return(self.eval(s.value, f) if s.value is not None else None)

    def x_Break(self, s, f):
        raise Break()

    def x_Continue(self, s, f):
        raise Continue()

    def x_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def x_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def x_AugAssign(self, s, f):
        op = type(s.op).__name__
        t = s.target
        rhs_first = False
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, f)
            rhs = self.eval(s.value, f)
            new = self.inplace(op, cur, rhs)
            self.assign(t, new, f)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, f)
            cur = self.getattr(o, t.attr)
            rhs = self.eval(s.value, f)
            self.setattr(o, t.attr, self.inplace(op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            ix = self.eval_index(t.slice, f)
            cur = self.getitem(o, ix)
            rhs = self.eval(s.value, f)
            self.setitem(o, ix, self.inplace(op, cur, rhs))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, cur, rhs):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, rhs)
            self.npm.same_kind(r, cur)
            if isinstance(r, Arr) and len(r.shape) != cur.ndim:
                raise PyRaise("ValueError", "non-broadcastable output operand")
            if isinstance(r, Arr):
                for a, b in zip(r.shape, cur.shape):
                    if not self.decide(tm.eq(a, b)):
                        raise PyRaise("ValueError", "non-broadcastable output operand")
            self.npm.write(self, cur, r)
            return cur
        if isinstance(cur, PList) and op == "Add":
            self.list_extend(cur, rhs)
            return cur
        return self.binop(op, cur, rhs)

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            if t.id in f.nonlocals:
                p = f.parent
                while p is not None and t.id not in p.locals:
                    p = p.parent
                if p is None:
                    raise Unsupported("nonlocal")
                self.set_local(p, t.id, v)
            else:
                self.set_local(f, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.concrete_items(v)
            n = len(t.elts)
            if star:
                i = star[0]
                after = n - i - 1
                if len(vals) < n - 1:
                    raise PyRaise("ValueError", "not enough values to unpack")
                parts = vals[:i] + [PList(vals[i:len(vals) - after])] + vals[len(vals) - after:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, f)
                return
            if len(vals) != n:
                raise PyRaise("ValueError", "wrong number of values to unpack")
            for e, x in zip(t.elts, vals):
                self.assign(e, x, f)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            self.setitem(o, self.eval_index(t.slice, f), v)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def x_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.jset("local", f, t.id, f.locals.get(t.id, MISSING))
                f.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, f)
                ix = self.eval_index(t.slice, f)
                if isinstance(o, PList) and o.head is None and isinstance(ix, (int, SliceV)):
                    items = list(o.items)
                    del items[self.pyslice(ix, len(items)) if isinstance(ix, SliceV) else ix]
                    self.set_items(o, items)
                elif isinstance(o, PDict):
                    items = dict(o.items)
                    del items[self.key(ix)]
                    self.set_items(o, items)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def x_If(self, s, f):
        if self.truthy(self.eval(s.test, f)):
            self.exec_block(s.body, f)
        else:
            self.exec_block(s.orelse, f)

    def x_Assert(self, s, f):
        if not self.truthy(self.eval(s.test, f)):
            raise PyRaise("AssertionError")

    def x_Raise(self, s, f):
        if s.exc is None:
            e = self.lookup("__exc__", f) if "__exc__" in f.locals else None
            if e is None:
                raise Unsupported("bare raise")
            raise e
        v = self.eval(s.exc, f)
        raise self.as_exc(v)

    def as_exc(self, v):
        if isinstance(v, PClass):
            return PyRaise(v.name, "", PObj(v))
        if isinstance(v, PObj) and v.cls is not None:
            return PyRaise(v.cls.name, "", v)
        if isinstance(v, PyRaise):
            return v
        raise Unsupported("raise of %r" % (v,))

    def exc_matches(self, name, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(name, c) for c in cls)
        target = cls.name if isinstance(cls, (PClass, PType)) else None
        n = name
        while n is not None:
            if n == target:
                return True
            n = EXC_PARENTS.get(n)
        return False

    def x_Try(self, s, f):
        try:
            try:
                self.exec_block(s.body, f)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.name, self.eval(h.type, f)):
                        if h.name:
                            self.set_local(f, h.name, e.value or PObj(PClass(e.name, [], {}, None)))
                        self.set_local(f, "__exc__", e)
                        self.exec_block(h.body, f)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, f)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, f)

    def x_With(self, s, f):
        for item in s.items:
            v = self.eval(item.context_expr, f)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, f)
        self.exec_block(s.body, f)

    # ------------------------------------------------------------- loops
    def x_For(self, s, f):
        it = self.eval(s.iter, f)
        it = textmodel.Lines(it) if isinstance(it, LAZY) else self.iterate(it)
        if isinstance(it, list):
            broke = False
            for x in it:
                self.assign(s.target, x, f)
                try:
                    self.exec_block(s.body, f)
                except Break:
                    broke = True
                    break
                except Continue:
                    continue
            if not broke and s.orelse:
                self.exec_block(s.orelse, f)
            return
        from . import loops
        loops.for_loop(self, s, it, f)

    def x_While(self, s, f):
        # concrete unrolling when the condition is decided, else by contract
        from . import loops
        loops.while_loop(self, s, f)

    # ================================================================ expressions
    def eval(self, e, f):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (type(e).__name__, self.where))
        return m(e, f)

    def e_Constant(self, e, f):
        v = e.value
        if isinstance(v, float):
            return Num(tm.num(v))
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, e, f):
        return self.lookup(e.id, f)

    def e_Tuple(self, e, f):
        return tuple(self.spread(e.elts, f))

    def e_List(self, e, f):
        return PList(self.spread(e.elts, f))

    def e_Set(self, e, f):
        s = PSet()
        for v in self.spread(e.elts, f):
            self.set_add(s, v)
        return s

    def spread(self, elts, f):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.eval(x.value, f)))
            else:
                out.append(self.eval(x, f))
        return out

    def e_Dict(self, e, f):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, f)
                d.items.update(o.items)
            else:
                kv = self.key(self.eval(k, f))
                d.items[kv] = self.eval(v, f)
        return d

    def e_Lambda(self, e, f):
        return self.make_func(e, f)

    def e_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        self.assign(e.target, v, f)
        return v

    def e_IfExp(self, e, f):
        return self.eval(e.body if self.truthy(self.eval(e.test, f)) else e.orelse, f)

    def e_BoolOp(self, e, f):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, f)
            if i == len(e.values) - 1:
                return v
            t = self.truthy(v)
            if isand and not t:
                return v if not isinstance(v, Num) or v.t.sort != B else False
            if not isand and t:
                return v if not isinstance(v, Num) or v.t.sort != B else True
        return v

    def e_UnaryOp(self, e, f):
        v = self.eval(e.operand, f)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, Num) and v.t.sort == B:
                return mknum(tm.not_(v.t))
            return not self.truthy(v)
        if op == "UAdd":
            return self.npm.copy_arr(self, v) if isinstance(v, Arr) else v
        if op == "USub":
            if isinstance(v, (int,)) and not isinstance(v, bool):
                return -v
            if isinstance(v, (Arr, MArr)):
                return self.npm.umap(self, lambda t: tm.neg(numterm(t)), v)
            return mknum(tm.neg(numterm(tv(v))), isinstance(v, Num) and v.np)
        if op == "Invert":
            if isinstance(v, Arr):
                return self.npm.umap(self, tm.not_, v, "b")
            if isinstance(v, Num) and v.t.sort == B:
                return mknum(tm.not_(v.t), True)
            if isinstance(v, int):
                return ~v
        raise Unsupported("unary %s" % op)

    def e_BinOp(self, e, f):
        a = self.eval(e.left, f)
        b = self.eval(e.right, f)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e, f):
        left = self.eval(e.left, f)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, f)
            r = self.compare(type(op).__name__, left, right)
            if i == len(e.ops) - 1:
                if res is True:
                    return r
                if isinstance(r, (bool, Num)):
                    return mknum(tm.and_(tv(res), tv(r)))
                return r if self.truthy(res) else False
            if len(e.ops) > 1:
                if r is False:
                    return False
                res = r if res is True else mknum(tm.and_(tv(res), tv(r)))
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return r if op == "Is" else (not r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, Num):
                return r if op == "In" else mknum(tm.not_(r.t))
            return r if op == "In" else not r
        if isinstance(a, (Arr, MArr)) or isinstance(b, (Arr, MArr)):
            return self.npm.cmp(self, op, a, b)
        fn = {"Eq": tm.eq, "NotEq": tm.ne, "Lt": tm.lt, "LtE": tm.le,
              "Gt": lambda x, y: tm.lt(y, x), "GtE": lambda x, y: tm.le(y, x)}[op]
        if is_scalar(a) and is_scalar(b):
            ta, tb = tv(a), tv(b)
            if ta.sort == B and tb.sort == B and op in ("Eq", "NotEq"):
                t = fn(ta, tb)
            elif U in (ta.sort, tb.sort):
                t = fn(ta, tb)
            else:
                t = fn(numterm(ta), numterm(tb))
            return mknum(t, (isinstance(a, Num) and a.np) or (isinstance(b, Num) and b.np))
        if op in ("Eq", "NotEq"):
            t = self.equal(a, b)
            return mknum(t if op == "Eq" else tm.not_(t))
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            # lexicographic
            if not a or not b:
                return {"Lt": len(a) < len(b), "LtE": len(a) <= len(b),
                        "Gt": len(a) > len(b), "GtE": len(a) >= len(b)}[op]
            e0 = tv(self.compare("Eq", a[0], b[0]))
            l0 = tv(self.compare({"LtE": "Lt", "GtE": "Gt"}.get(op, op), a[0], b[0]))
            if e0 is tm.FALSE:
                return mknum(l0)
            rest = tv(self.compare(op, a[1:], b[1:]))
            return mknum(tm.or_(l0, tm.and_(e0, rest)))
        raise PyRaise("TypeError", "unorderable")

    def is_same(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return False
        if isinstance(a, (Num,)) and isinstance(b, bool) and a.t.sort == B:
            if a.np:
                return False
            return self.decide(a.t if b else tm.not_(a.t))
        if isinstance(b, (Num,)) and isinstance(a, bool):
            return self.is_same(b, a)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return False

    def equal(self, a, b):
        """Equality as a boolean term."""
        if a is b:
            return tm.TRUE
        if is_scalar(a) and is_scalar(b):
            return tv(self.compare("Eq", a, b))
        if isinstance(a, str) and isinstance(b, str):
            return tm.TRUE if a == b else tm.FALSE
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            ta = strconst(a) if isinstance(a, str) else a.t
            tb = strconst(b) if isinstance(b, str) else b.t
            return tm.eq(ta, tb)
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            if isinstance(a, (str, OpaqueStr, SymStr)) and isinstance(b, (str, OpaqueStr, SymStr)):
                raise Unsupported("comparison of message text")
            return tm.FALSE
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return tm.FALSE
            return tm.and_(*[self.equal(x, y) for x, y in zip(a, b)])
        if isinstance(a, PList) and isinstance(b, PList):
            if a.head is None and b.head is None:
                if len(a.items) != len(b.items):
                    return tm.FALSE
                return tm.and_(*[self.equal(x, y) for x, y in zip(a.items, b.items)])
            if a.head is not None and b.head is None and not b.items and not a.items:
                return tm.eq(a.head[0], tm.ZERO)
            if b.head is not None and a.head is None:
                return self.equal(b, a)
            raise Unsupported("list comparison")
        if a is None or b is None:
            return tm.FALSE
        if isinstance(a, (PType, PClass, PFunc, Builtin, Namespace, Module)):
            return tm.TRUE if getattr(a, "name", a) == getattr(b, "name", b) and type(a) is type(b) else tm.FALSE
        if type(a) is not type(b):
            return tm.FALSE
        if isinstance(a, PObj):
            return tm.FALSE
        raise Unsupported("equality of %r and %r" % (a, b))

    def contains(self, c, x):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported("symbolic substring test")
        if isinstance(c, PDict):
            if c.fn is not None:
                raise Unsupported("membership in abstract dict")
            items = list(c.items)
            k = self.key(x)
            if isinstance(k, tuple) and k and k[0] == "sym":
                return mknum(tm.or_(*[self.equal(x, self.unkey(i)) for i in items]))
            return k in c.items
        if isinstance(c, PSet):
            return mknum(tm.or_(*[self.equal(x, i) for i in c.items]))
        if isinstance(c, (PList, tuple)):
            if isinstance(c, PList) and c.head is not None:
                n, fn = c.head
                t = tm.ex_(tm.ZERO, n, lambda k: self.equal(x, fn(k)))
                return mknum(tm.or_(t, *[self.equal(x, i) for i in c.items]))
            items = c.items if isinstance(c, PList) else c
            return mknum(tm.or_(*[self.equal(x, i) for i in items]))
        if isinstance(c, Arr):
            return mknum(self.npm.reduce_any(self, self.npm.cmp(self, "Eq", c, x)), True)
        it = self.iterate(c)
        if isinstance(it, list):
            return mknum(tm.or_(*[self.equal(x, i) for i in it]))
        return mknum(tm.ex_(tm.ZERO, it.n, lambda k: self.equal(x, it.get(k))))

    def key(self, k):
        """Hashable dictionary key."""
        if isinstance(k, bool) or k is None:
            return k
        if isinstance(k, (int, str)):
            return k
        if isinstance(k, Num):
            if k.t.op == "num":
                v = tm.val(k.t)
                return int(v) if v.denominator == 1 else v
            return ("symnum", k.t)
        if isinstance(k, SymStr):
            return ("sym", k.t)
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, (PClass, PType, PFunc)):
            return k
        raise Unsupported("dictionary key %r" % (k,))

    def unkey(self, k):
        if isinstance(k, tuple) and k and k[0] == "sym":
            return SymStr(k[1])
        if isinstance(k, tuple) and k and k[0] == "symnum":
            return Num(k[1])
        return k

    # ------------------------------------------------------------- truth
    def truthy(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, Num):
            t = v.t
            if t.sort == B:
                return self.decide(t)
            if t.sp:
                f, x = tm.split_nan(t)
                return self.decide(tm.or_(f, tm.ne(t, tm.num(0))))
            return self.decide(tm.ne(t, tm.ZERO if t.sort == I else tm.num(0)))
        if isinstance(v, (int, str, tuple)):
            return bool(v)
        if isinstance(v, PList):
            if v.items:
                return True
            if v.head is not None:
                return self.decide(tm.lt(tm.ZERO, v.head[0]))
            return False
        if isinstance(v, (PDict, PSet)):
            return bool(v.items)
        if isinstance(v, Arr):
            n = self.npm.size(v)
            if self.decide(tm.eq(n, tm.ONE)):
                return self.truthy(Num(self.npm.flat_get(v, tm.ZERO), True))
            raise PyRaise("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, OpaqueStr):
            return True
        if isinstance(v, (PObj, PFunc, PClass, Bound, Builtin, PType, Namespace, Module)):
            if isinstance(v, PObj) and v.cls and v.cls.lookup("__bool__"):
                return self.truthy(self.call(self.getattr(v, "__bool__"), [], {}))
            if isinstance(v, PObj) and v.cls and v.cls.lookup("__len__"):
                return self.truthy(self.call(self.getattr(v, "__len__"), [], {}))
            return True
        if isinstance(v, textmodel.ReMatch):
            return True
        raise Unsupported("truth of %r" % (v,))

    # ------------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        if isinstance(a, (Arr, MArr)) or isinstance(b, (Arr, MArr)):
            return self.npm.arith(self, op, a, b)
        if is_scalar(a) and is_scalar(b):
            return self.scalar_op(op, a, b)
        if isinstance(a, (str, OpaqueStr, SymStr)) or isinstance(b, (str, OpaqueStr, SymStr)):
            if op == "Add":
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                if isinstance(a, (str, OpaqueStr, SymStr)) and isinstance(b, (str, OpaqueStr, SymStr)):
                    return OpaqueStr()
                raise PyRaise("TypeError", "can only concatenate str")
            if op == "Mult":
                s, n = (a, b) if isinstance(a, (str, OpaqueStr)) else (b, a)
                if isinstance(s, str) and isinstance(n, int):
                    return s * n
                return OpaqueStr()
            if op == "Mod":
                return OpaqueStr()
            raise PyRaise("TypeError", "unsupported operand for str")
        if op == "Add":
            if isinstance(a, PList) and isinstance(b, PList):
                out = self.list_copy(a)
                self.list_extend(out, b)
                return out
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op == "Mult":
            if isinstance(a, int) and isinstance(b, (PList, tuple)) or isinstance(a, Num) and isinstance(b, PList):
                a, b = b, a
            if isinstance(a, (PList, tuple)) and is_scalar(b):
                n = tv(b)
                if n.op == "num":
                    k = int(tm.val(n))
                    if isinstance(a, tuple):
                        return a * k
                    if a.head is None:
                        return PList(a.items * k)
                if isinstance(a, PList) and a.head is None:
                    if n.sort != I:
                        raise PyRaise("TypeError", "can't multiply sequence by non-int")
                    items = list(a.items)
                    ln = n
                    if not self.decide(tm.le(tm.ZERO, n)):
                        return PList()
                    if len(items) == 1:
                        return PList(head=(ln, lambda i: items[0]))
                    if items:
                        m = tm.num(len(items))
                        if all(x is items[0] or (type(x) is type(items[0]) and isinstance(x, (str, int, float, bool)) and x == items[0])
                               for x in items):
                            return PList(head=(tm.mul(m, ln), lambda i: items[0]))
                        return PList(head=(tm.mul(m, ln), lambda i: items[self.split_int(tm.imod(i, m), 0, len(items))]))
                    return PList()
                if isinstance(a, PList) and not a.items and a.head is not None and n.op == "num":
                    out = PList()
                    for _ in range(int(tm.val(n))):
                        self.list_extend(out, a)
                    return out
                if isinstance(a, PList) and not a.items and a.head is not None:
                    # repetition of a uniform symbolic list
                    v0 = a.head[1](tm.fresh("r"))
                    v1 = a.head[1](tm.fresh("r"))
                    if self.same_value(v0, v1) and self.decide(tm.le(tm.ZERO, n)):
                        return PList(head=(tm.mul(a.head[0], n), a.head[1]))
                raise Unsupported("list repetition")
        if isinstance(a, PSet) and isinstance(b, PSet):
            if op == "BitOr":
                s = PSet(a.items)
                for x in b.items:
                    self.set_add(s, x)
                return s
            if op in ("Sub", "BitAnd"):
                out = PSet()
                for x in a.items:
                    inb = self.truthy(self.contains(b, x))
                    if inb == (op == "BitAnd"):
                        out.items.append(x)
                return out
        for o, other, nm in ((a, b, "__%s__" % op.lower()),):
            if isinstance(o, PObj) and o.cls and o.cls.lookup(nm):
                return self.call(self.getattr(o, nm), [other], {})
        raise PyRaise("TypeError", "unsupported operand types for %s" % op)

    def same_value(self, a, b):
        try:
            if is_scalar(a) and is_scalar(b):
                return tv(a) is tv(b)
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                return all(self.same_value(x, y) for x, y in zip(a, b))
            return a is b or (isinstance(a, str) and a == b)
        except Unsupported:
            return False

    def scalar_op(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int) and not (op in ("Div", "Pow")):
            a_, b_ = int(a), int(b)
            if op == "Add":
                return a_ + b_
            if op == "Sub":
                return a_ - b_
            if op == "Mult":
                return a_ * b_
            if op in ("FloorDiv", "Mod"):
                if b_ == 0:
                    raise PyRaise("ZeroDivisionError")
                return a_ // b_ if op == "FloorDiv" else a_ % b_
            if op in ("BitAnd", "BitOr", "BitXor") :
                r = {"BitAnd": a_ & b_, "BitOr": a_ | b_, "BitXor": a_ ^ b_}[op]
                return bool(r) if isinstance(a, bool) and isinstance(b, bool) else r
            if op == "LShift":
                return a_ << b_
            if op == "RShift":
                return a_ >> b_
        ta, tb = tv(a), tv(b)
        npf = (isinstance(a, Num) and a.np) or (isinstance(b, Num) and b.np)
        if op in ("BitAnd", "BitOr", "BitXor") and ta.sort == B and tb.sort == B:
            return mknum({"BitAnd": tm.and_, "BitOr": tm.or_,
                          "BitXor": lambda x, y: tm.not_(tm.eq(x, y))}[op](ta, tb), npf)
        ta, tb = numterm(ta), numterm(tb)
        return mknum(self.term_op(op, ta, tb, npf), npf)

    def term_op(self, op, ta, tb, npf=True):
        if op == "Add":
            return tm.add(ta, tb)
        if op == "Sub":
            return tm.sub(ta, tb)
        if op == "Mult":
            return tm.mul(ta, tb)
        if op == "Div":
            if not npf and not tb.sp and self.decide(tm.eq(tb, tm.ZERO if tb.sort == I else tm.num(0))):
                raise PyRaise("ZeroDivisionError")
            r = tm.div(ta, tb)
            if r.sort == I:
                r = tm.mk("num", (tm.val(r),), R) if r.op == "num" else tm.mul(tm.mk("num", (tm.num(1.0).args[0],), R), r)
            return r
        if op == "Pow":
            r = tm.pow_(ta, tb)
            return r
        if op in ("FloorDiv", "Mod"):
            if ta.sort == I and tb.sort == I:
                if not npf and self.decide(tm.eq(tb, tm.ZERO)):
                    raise PyRaise("ZeroDivisionError")
                return tm.idiv(ta, tb) if op == "FloorDiv" else tm.imod(ta, tb)
            q = tm.floor(tm.div(ta, tb))
            return q if op == "FloorDiv" else tm.sub(ta, tm.mul(tb, q))
        raise Unsupported("operator %s" % op)

    # ------------------------------------------------------------- strings
    def e_JoinedStr(self, e, f):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                try:
                    x = self.eval(v.value, f)
                except PyRaise:
                    raise
                if v.format_spec is None and v.conversion == -1 and isinstance(x, (str, int)) \
                        and not isinstance(x, bool):
                    parts.append(str(x))
                else:
                    parts.append(None)
        if all(p is not None for p in parts):
            return "".join(parts)
        return OpaqueStr()

    def e_FormattedValue(self, e, f):
        return OpaqueStr()

    # ------------------------------------------------------------- attribute / item
    def e_Attribute(self, e, f):
        return self.getattr(self.eval(e.value, f), e.attr)

    def getattr(self, o, name):
        if isinstance(o, PObj):
            if o.cls is not None:
                m = o.cls.lookup(name)
                if isinstance(m, PFunc) and m.kind == "property" and not (m.stored and name in o.attrs):
                    v = self.call_func(m, [o], {})
                    if m.stored:
                        self.set_attr(o, name, v)
                    return v
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported("read of attribute %s, undetermined after a loop" % name)
                return v
            if o.cls is not None:
                if isinstance(m, PFunc):
                    if m.kind == "static":
                        return m
                    if m.kind == "classmethod":
                        return Bound(m, o.cls)
                    return Bound(m, o)
                if isinstance(m, Builtin):
                    return Bound(m, o)
                if m is not None:
                    return m
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return PDict(o.attrs)
            if o.cls is not None and o.cls.lookup("__getattr__"):
                return self.call(Bound(o.cls.lookup("__getattr__"), o), [name], {})
            raise PyRaise("AttributeError", name)
        if isinstance(o, PClass):
            if name == "__name__":
                return o.name
            m = o.lookup(name)
            if isinstance(m, PFunc) and m.kind == "classmethod":
                return Bound(m, o)
            if m is None:
                raise PyRaise("AttributeError", name)
            return m
        if isinstance(o, Namespace):
            if name in o.table:
                return o.table[name]
            sub = self.externals.get(o.name + "." + name)
            if sub is not None:
                return sub
            raise Unsupported("%s.%s has no contract" % (o.name, name))
        if isinstance(o, Module):
            if name in o.ns:
                if isinstance(o.ns[name], Poison):
                    raise Unsupported(o.ns[name].why or "read of %s" % name)
                return o.ns[name]
            p = os.path.join(self.root, *o.name.split("."), name + ".py")
            if os.path.exists(p):
                return self.module(o.name + "." + name)
            raise PyRaise("AttributeError", name)
        if isinstance(o, SuperProxy):
            mro = o.obj.cls.mro() if isinstance(o.obj, PObj) else o.obj.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    m = c.ns[name]
                    if isinstance(m, PFunc):
                        if m.kind == "property":
                            return self.call_func(m, [o.obj], {})
                        if m.kind == "static":
                            return m
                        return Bound(m, o.obj)
                    return m
            if name in ("__init__", "__init_subclass__"):
                return Builtin("object.__init__", lambda it, a, k: None)
            raise PyRaise("AttributeError", name)
        r = self.npm.getattr_value(self, o, name)
        if r is not MISSING:
            return r
        raise PyRaise("AttributeError", "%r has no attribute %s" % (type(o).__name__, name))

    def setattr(self, o, name, v):
        if isinstance(o, PObj):
            if o.cls is not None:
                st = o.cls.lookup("%s!set" % name)
                if st is not None:
                    self.call_func(st, [o, v], {})
                    return
                m = o.cls.lookup(name)
                if isinstance(m, PFunc) and m.kind == "property" and not m.stored:
                    raise PyRaise("AttributeError", "can't set attribute")
            self.set_attr(o, name, v)
            return
        if isinstance(o, Arr) and name == "shape":
            raise Unsupported("assignment to shape")
        raise Unsupported("attribute assignment on %r" % (o,))

    def e_Subscript(self, e, f):
        o = self.eval(e.value, f)
        return self.getitem(o, self.eval_index(e.slice, f))

    def eval_index(self, s, f):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x, f) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, f) for x in s.elts)
        return self.eval(s, f)

    def pyslice(self, s, n):
        def g(x):
            if x is None:
                return None
            t = tv(x)
            if t.op != "num":
                raise Unsupported("symbolic slice of a concrete sequence")
            return int(tm.val(t))
        return slice(g(s.lo), g(s.hi), g(s.step))

    def concrete_int(self, v):
        """Python int of a value, or None."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Num):
            t = self.ctx.rw(v.t)
            if t.op == "num" and tm.val(t).denominator == 1:
                return int(tm.val(t))
        if isinstance(v, Arr) and v.ndim == 0:
            t = v.get(())
            if t.op == "num":
                return int(tm.val(t))
        return None

    def split_int(self, t, lo, hi):
        """Concrete value of an integer term known to lie in [lo, hi) by case split."""
        for i in range(lo, hi - 1):
            if self.decide(tm.eq(t, tm.num(i))):
                return i
        return hi - 1

    def getitem(self, o, ix):
        if isinstance(o, Arr):
            return self.npm.index(self, o, ix)
        if isinstance(o, MArr):
            raise Unsupported("masked array indexing")
        if isinstance(o, str):
            if isinstance(ix, SliceV):
                return o[self.pyslice(ix, len(o))]
            i = self.concrete_int(ix)
            if i is None:
                raise Unsupported("symbolic string index")
            try:
                return o[i]
            except IndexError:
                raise PyRaise("IndexError", "string index out of range")
        if isinstance(o, SymStr):
            if o.t in self.spelling and isinstance(ix, SliceV):
                s = self.spelling[o.t]
                sub = s[self.pyslice(ix, len(s))]
                if sub == s:
                    return o
            if isinstance(ix, SliceV) and all(x is None or isinstance(x, int) for x in (ix.lo, ix.hi, ix.step)):
                return SymStr(tm.mk("app", ("slice[%s:%s:%s]" % (ix.lo, ix.hi, ix.step), o.t), U))
            i = self.concrete_int(ix)
            if i is None:
                raise Unsupported("slice of a symbolic string")
            return SymStr(tm.mk("app", ("char%d" % i, o.t), U))
        if isinstance(o, OpaqueStr):
            raise Unsupported("index of message text")
        if isinstance(o, PDict):
            return self.dict_get(o, ix)
        if isinstance(o, tuple):
            if isinstance(ix, SliceV):
                return o[self.pyslice(ix, len(o))]
            i = self.concrete_int(ix)
            if i is None:
                t = tv(ix)
                n = len(o)
                if not self.decide(tm.and_(tm.le(tm.num(-n), t), tm.lt(t, tm.num(n)))):
                    raise PyRaise("IndexError", "tuple index out of range")
                i = self.split_int(t, -n if not self.decide(tm.le(tm.ZERO, t)) else 0, n)
            if not -len(o) <= i < len(o):
                raise PyRaise("IndexError", "tuple index out of range")
            return o[i]
        if isinstance(o, PList):
            return self.list_get(o, ix)
        if isinstance(o, PObj) and o.cls is not None and o.cls.lookup("__getitem__"):
            return self.call(self.getattr(o, "__getitem__"), [ix], {})
        if isinstance(o, PObj) and "__getitem__" in o.attrs:
            return self.call(o.attrs["__getitem__"], [ix], {})
        if isinstance(o, (Num, int)):
            raise PyRaise("TypeError" if not (isinstance(o, Num) and o.np) else "IndexError", "scalar is not subscriptable")
        raise PyRaise("TypeError", "object is not subscriptable: %r" % (o,))

    def dict_get(self, d, k):
        if d.fn is not None:
            return d.fn(self, k)
        kk = self.key(k)
        if isinstance(kk, tuple) and kk and kk[0] in ("sym", "symnum"):
            if kk in d.items:
                return d.items[kk]
            for cand, v in d.items.items():
                if self.decide(self.equal(k, self.unkey(cand))):
                    return v
            raise PyRaise("KeyError", "symbolic key")
        if kk in d.items:
            return d.items[kk]
        raise PyRaise("KeyError", str(k))

    def list_len(self, l):
        nb = [x.n for x in l.items if isinstance(x, V.ListBlock)]
        n = tm.num(len(l.items) - len(nb))
        if nb:
            n = tm.add(n, *nb)
        if l.head is not None:
            n = tm.add(l.head[0], n)
        return n

    def list_copy(self, l):
        self.no_blocks(l)
        return PList(l.items, l.head)

    def no_blocks(self, l):
        if any(isinstance(x, V.ListBlock) for x in l.items):
            raise Unsupported("list is read in the loop that extends it")

    def list_get(self, l, ix):
        self.no_blocks(l)
        if isinstance(ix, SliceV):
            if l.head is None:
                return PList(l.items[self.pyslice(ix, len(l.items))])
            n = self.list_len(l)
            lo, hi, step = self.npm.slice_bounds(self, ix, n)
            if step.op != "num" or tm.val(step) != 1:
                raise Unsupported("list slice with a step")
            c = self.list_copy(l)
            # slice within items
            return PList(head=(tm.sub(hi, lo), lambda i: self.list_at(c, tm.add(i, lo))))
        i = self.concrete_int(ix)
        if l.head is None:
            n = len(l.items)
            if i is None:
                t = tv(ix)
                if not self.decide(tm.and_(tm.le(tm.num(-n), t), tm.lt(t, tm.num(n)))):
                    raise PyRaise("IndexError", "list index out of range")
                if self.decide(tm.le(tm.ZERO, t)):
                    i = self.split_int(t, 0, n)
                else:
                    i = self.split_int(t, -n, 0)
            if not -n <= i < n:
                raise PyRaise("IndexError", "list index out of range")
            return l.items[i]
        if i is not None and i < 0 and -i <= len(l.items):
            return l.items[i]
        n = self.list_len(l)
        t = tv(ix)
        if not self.decide(tm.le(tm.ZERO, t)):
            t = tm.add(t, n)
            if not self.decide(tm.le(tm.ZERO, t)):
                raise PyRaise("IndexError", "list index out of range")
        if not self.decide(tm.lt(t, n)):
            raise PyRaise("IndexError", "list index out of range")
        return self.list_at(l, t)

    def list_at(self, l, t):
        if l.head is not None:
            if not l.items:
                return l.head[1](t)
            return self.either(tm.lt(t, l.head[0]), lambda: l.head[1](t),
                               lambda: self.item_at(l.items, tm.sub(t, l.head[0])))
        return self.item_at(l.items, t)

    def either(self, c, f, g):
        """f() when c else g(); scalars are merged without a case distinction."""
        tr = self.ctx.truth(c)
        if tr is None:
            try:
                x, y = f(), g()
            except (Unsupported, PyRaise, IndexError):
                x = y = None
            if is_scalar(x) and is_scalar(y) or isinstance(x, Arr) and isinstance(y, Arr) and x.ndim == y.ndim and x.dtype == y.dtype:
                return self.merge_value(c, x, y)
            tr = self.decide(c)
        return f() if tr else g()

    def item_at(self, items, t):
        if t.op == "num":
            return items[int(tm.val(t))]
        if items and (all(is_scalar(x) for x in items) or all(isinstance(x, Arr) and x.ndim == items[0].ndim and
                                                              x.dtype == items[0].dtype for x in items)):
            v = items[-1]
            for i in range(len(items) - 2, -1, -1):
                v = self.merge_value(tm.eq(t, tm.num(i)), items[i], v)
            return v
        return items[self.split_int(t, 0, len(items))]

    def list_append(self, l, v):
        self.set_items(l, l.items + [v])

    def list_extend(self, l, v):
        if isinstance(v, PList):
            if v.head is None:
                self.set_items(l, l.items + list(v.items))
                return
            if l.head is not None and getattr(l.head[1], "havoc", False):
                c = self.list_copy(v)
                self.set_items(l, l.items + [V.ListBlock(self.list_len(v), lambda i: self.list_at(c, i))])
                return
            if l.head is None and not l.items:
                if l.frozen:
                    self.violations.append(("container passed as argument is modified", self.where))
                self.jset("head", l, None, l.head)
                l.head = v.head
                self.set_items(l, list(v.items))
                return
            # general: make a new head covering everything before
            old = self.list_copy(l)
            n1 = self.list_len(l)
            n2 = v.head[0]
            v2 = v.head[1]
            it = self

            def fn(i):
                return it.either(tm.lt(i, n1), lambda: it.list_at(old, i), lambda: v2(tm.sub(i, n1)))
            self.jset("head", l, None, l.head)
            l.head = (tm.add(n1, n2), fn)
            self.set_items(l, list(v.items))
            return
        it = self.iterate(v)
        if isinstance(it, list):
            self.set_items(l, l.items + it)
        else:
            self.list_extend(l, PList(head=(it.n, it.get)))

    def set_add(self, s, v):
        for x in s.items:
            if self.decide(self.equal(v, x)):
                return
        self.set_items(s, s.items + [v])

    def setitem(self, o, ix, v):
        if isinstance(o, Arr):
            self.npm.setindex(self, o, ix, v)
            return
        if isinstance(o, PDict):
            items = dict(o.items)
            items[self.key(ix)] = v
            self.set_items(o, items)
            return
        if isinstance(o, PList):
            if isinstance(ix, SliceV) and o.head is None:
                items = list(o.items)
                items[self.pyslice(ix, len(items))] = self.concrete_items(v)
                self.set_items(o, items)
                return
            i = self.concrete_int(ix)
            if o.head is None:
                if i is None:
                    i = self.split_int(tv(ix), 0, len(o.items))
                if not -len(o.items) <= i < len(o.items):
                    raise PyRaise("IndexError", "assignment index out of range")
                items = list(o.items)
                items[i] = v
                self.set_items(o, items)
                return
            t = tv(ix)
            n, fn = o.head
            if self.decide(tm.and_(tm.le(tm.ZERO, t), tm.lt(t, n))):
                it = self
                self.jset("head", o, None, o.head)
                o.head = (n, lambda k: self.merge_value(tm.eq(k, t), v, fn(k)))
                if o.frozen:
                    self.violations.append(("container passed as argument is modified", self.where))
                return
            if i is not None and i < 0 and -i <= len(o.items):
                items = list(o.items)
                items[i] = v
                self.set_items(o, items)
                return
            raise Unsupported("list assignment")
        if isinstance(o, PObj) and o.cls is not None and o.cls.lookup("__setitem__"):
            self.call(self.getattr(o, "__setitem__"), [ix, v], {})
            return
        raise PyRaise("TypeError", "item assignment on %r" % (o,))

    # ------------------------------------------------------------- iteration
    def iterate(self, v):
        """Concrete list of values or a Seq."""
        if isinstance(v, list):
            return v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Seq):
            if v.n.op == "num":
                return [v.get(tm.num(i)) for i in range(int(tm.val(v.n)))]
            n = self.ctx.rw(v.n)
            if n.op == "num":
                return [v.get(tm.num(i)) for i in range(int(tm.val(n)))]
            return v
        if isinstance(v, PList):
            if v.head is None:
                return list(v.items)
            if not v.items:
                return self.iterate(Seq(v.head[0], v.head[1]))
            c = self.list_copy(v)
            n = self.list_len(c)
            return Seq(n, lambda i: self.list_at(c, i))
        if isinstance(v, PDict):
            return [self.unkey(k) for k in v.items]
        if isinstance(v, PSet):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, LAZY):
            return v.rest()
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise("TypeError", "iteration over a 0-d array")
            n = self.ctx.rw(v.shape[0])
            g = lambda i: self.npm.index_ok(self, v, i)
            return self.iterate(Seq(n, g))
        if isinstance(v, PObj):
            if "__iter__" in v.attrs:
                return self.iterate(self.call(v.attrs["__iter__"], [], {}))
            if v.cls is not None and v.cls.lookup("__iter__"):
                return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}))
        raise PyRaise("TypeError", "object is not iterable: %r" % (v,))

    def concrete_items(self, v):
        it = self.iterate(v)
        if isinstance(it, Seq):
            raise Unsupported("unpacking a sequence of symbolic length")
        return it

    def e_ListComp(self, e, f):
        r = self.comp(e, f)
        return r

    def e_GeneratorExp(self, e, f):
        first = self.eval(e.generators[0].iter, f)
        if isinstance(first, textmodel.TextFile):
            return self.lazy(e, f, first)
        return self.comp(e, f, first)

    def lazy(self, e, f, first=None):
        """A generator whose elements are made when they are asked for."""
        fr = Frame(f.mod, f, func=f.func or True)
        first = self.eval(e.generators[0].iter, f) if first is None else first

        def gen(i):
            if i == len(e.generators):
                yield self.eval(e.elt, fr)
                return
            g = e.generators[i]
            src = self.eval(g.iter, fr) if i else first
            it = textmodel.Lines(src) if isinstance(src, LAZY) else self.iterate(src)
            if isinstance(it, Seq):
                raise Unsupported("generator over a symbolic sequence")
            for x in it:
                self.assign(g.target, x, fr)
                if all(self.truthy(self.eval(c, fr)) for c in g.ifs):
                    yield from gen(i + 1)
        return textmodel.LazyGen(gen(0))

    def e_SetComp(self, e, f):
        l = self.comp(e, f)
        s = PSet()
        for x in self.concrete_items(l):
            self.set_add(s, x)
        return s

    def e_DictComp(self, e, f):
        d = PDict()
        fake = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        ast.copy_location(fake, e)
        ast.fix_missing_locations(fake)
        for kv in self.concrete_items(self.comp(fake, f)):
            d.items[self.key(kv[0])] = kv[1]
        return d

    def comp(self, e, f, first=None):
        fr = Frame(f.mod, f, func=f.func or True)
        out = PList()

        def gen(i):
            if i == len(e.generators):
                self.list_append(out, self.eval(e.elt, fr))
                return
            g = e.generators[i]
            it = self.iterate(first if i == 0 and first is not None else self.eval(g.iter, fr if i else f))
            if isinstance(it, Seq):
                if i == 0 and len(e.generators) == 1 and not g.ifs:
                    from . import loops
                    h = loops.comp_seq(self, it, lambda x: (self.assign(g.target, x, fr), self.eval(e.elt, fr))[1])
                    self.list_extend(out, PList(head=h))
                    return
                if i == 0 and len(e.generators) == 1:
                    from . import loops

                    def body(x):
                        self.assign(g.target, x, fr)
                        if not all(self.truthy(self.eval(c, fr)) for c in g.ifs):
                            return loops.SKIP
                        return self.eval(e.elt, fr)
                    h = loops.comp_seq(self, it, body)
                    self.list_extend(out, PList(head=h))
                    out.sel = getattr(h, "sel", None)
                    return
                raise Unsupported("nested comprehension over a symbolic sequence")
            for x in it:
                self.assign(g.target, x, fr)
                if all(self.truthy(self.eval(c, fr)) for c in g.ifs):
                    gen(i + 1)
        gen(0)
        return out

    def e_Starred(self, e, f):
        raise Unsupported("starred expression")

    # ------------------------------------------------------------- calls
    def e_Call(self, e, f):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in f.locals:
            fr = f
            while fr is not None and not isinstance(fr.func, PFunc):
                fr = fr.parent
            if e.args:
                cls = self.eval(e.args[0], f)
                obj = self.eval(e.args[1], f)
            else:
                cls = fr.func.cls
                obj = fr.locals[fr.func.node.args.args[0].arg]
            return SuperProxy(cls, obj)
        if isinstance(e.func, ast.Name) and e.func.id == "locals":
            raise Unsupported("locals()")
        fn = self.eval(e.func, f)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.eval(a.value, f)))
            elif isinstance(a, ast.GeneratorExp) and isinstance(e.func, ast.Name) and e.func.id == "next":
                src = self.eval(a.generators[0].iter, f)
                args.append(self.lazy(a, f, src) if isinstance(src, LAZY) or not isinstance(self.iterate(src), Seq)
                            else self.comp(a, f, src))
            else:
                args.append(self.eval(a, f))
        for k in e.keywords:
            if k.arg is None:
                o = self.eval(k.value, f)
                if not isinstance(o, PDict):
                    raise Unsupported("** of a non-dict")
                for kk, v in o.items.items():
                    kwargs[kk] = v
            else:
                kwargs[k.arg] = self.eval(k.value, f)
        w = self.where
        r = self.call(fn, args, kwargs)
        self.where = w
        return r

    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(fn, Bound):
            return self.call(fn.func, [fn.self_] + list(args), kwargs)
        if isinstance(fn, Builtin):
            self.used_models.add(fn.name)
            if kwargs.get("out") is not None and fn.name.startswith(("np.", "ndarray.")):
                return self.npm.into(self, fn, list(args), dict(kwargs))
            return fn.fn(self, list(args), dict(kwargs))
        if isinstance(fn, PFunc):
            return self.call_func(fn, list(args), kwargs)
        if isinstance(fn, PClass):
            return self.instantiate(fn, list(args), kwargs)
        if isinstance(fn, PType):
            if fn.call is None:
                raise Unsupported("call of type %s" % fn.name)
            self.used_models.add(fn.name)
            return fn.call(self, list(args), dict(kwargs))
        if isinstance(fn, Namespace) and "__call__" in fn.table:
            return self.call(fn.table["__call__"], args, kwargs)
        if isinstance(fn, PObj):
            c = fn.attrs.get("__call__") or (fn.cls and fn.cls.lookup("__call__"))
            if isinstance(c, PFunc):
                return self.call_func(c, [fn] + list(args), kwargs)
            if c is not None:
                return self.call(c, args, kwargs)
        raise PyRaise("TypeError", "object is not callable: %r" % (fn,))

    def instantiate(self, cls, args, kwargs):
        o = PObj(cls)
        o_abs = [n for n in self.abstract_methods(cls)]
        if o_abs:
            raise PyRaise("TypeError", "abstract class")
        q = (cls.mod.name if cls.mod else "", cls.name)
        c = self.contracts.get(q)
        if c is not None:
            return c(self, args, kwargs)
        init = cls.lookup("__init__")
        if init is not None:
            self.call(init if isinstance(init, Builtin) else init, [o] + args, kwargs)
        elif cls.name in EXC_PARENTS or any(c.name in EXC_PARENTS for c in cls.mro()):
            o.attrs["args"] = tuple(args)
        elif args or kwargs:
            raise PyRaise("TypeError", "object takes no arguments")
        return o

    def abstract_methods(self, cls):
        seen = set()
        for c in cls.mro():
            for n, m in c.ns.items():
                if n in seen:
                    continue
                seen.add(n)
                if isinstance(m, PFunc):
                    for d in getattr(m.node, "decorator_list", []):
                        if (isinstance(d, ast.Name) and d.id == "abstractmethod") or \
                                (isinstance(d, ast.Attribute) and d.attr == "abstractmethod"):
                            yield n

    def qualname(self, fn):
        return (fn.mod.name, (fn.cls.name + "." if fn.cls else "") + fn.name)

    def call_func(self, fn, args, kwargs):
        if fn.cache is not None:
            return self.cached_call(fn, args, kwargs)
        return self.plain_call(fn, args, kwargs)

    def cached_call(self, fn, args, kwargs):
        """functools.lru_cache: the very object returned for equal arguments before (sizes of caches are not modelled)."""
        for x in list(args) + list(kwargs.values()):
            if isinstance(x, (Arr, PList, PDict, PSet)):
                raise PyRaise("TypeError", "unhashable argument")

        def same(a, b):
            if isinstance(a, PObj) or isinstance(b, PObj):
                if any(isinstance(x, PObj) and x.cls is not None and x.cls.lookup("__eq__") for x in (a, b)):
                    raise Unsupported("cache keyed by objects with their own equality")
                return a is b
            if isinstance(a, (PClass, PFunc, Builtin, Bound)) or isinstance(b, (PClass, PFunc, Builtin, Bound)):
                return a is b
            return self.decide(self.equal(a, b))
        for a0, k0, r in fn.cache.items:
            if len(a0) == len(args) and sorted(k0) == sorted(kwargs) and all(same(x, y) for x, y in zip(a0, args)) \
                    and all(same(k0[n], kwargs[n]) for n in k0):
                return r
        r = self.plain_call(fn, args, kwargs)
        self.set_items(fn.cache, fn.cache.items + [(list(args), dict(kwargs), r)])
        return r

    def plain_call(self, fn, args, kwargs):
        q = self.qualname(fn)
        c = self.contracts.get(q)
        if c is not None:
            r = c(self, args, kwargs)
            if r is not NotImplemented:
                return r
        self.called.add("%s.%s" % q)
        node = fn.node
        fr = Frame(fn.mod, fn.closure, assigned_names(node), fn)
        if fn.kind == "classmethod" and False:
            pass
        self.bind_args(fn, node.args, args, kwargs, fr)
        self.inline_depth += 1
        if self.inline_depth > 60:
            self.inline_depth = 0
            raise Unsupported("recursion too deep")
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
                return self.generator(fn, node, fr)
            try:
                self.exec_block(node.body, fr)
            except Return as r:
                return r.v
            return None
        finally:
            self.inline_depth -= 1

    def generator(self, fn, node, fr):
        """Generators are run eagerly (no interleaving with the consumer is modelled)."""
        out = PList()
        fr.locals["__yield__"] = out
        try:
            self.exec_block(node.body, fr)
        except Return:
            pass
        return out

    def e_Yield(self, e, f):
        v = self.eval(e.value, f) if e.value is not None else None
        self.list_append(f.locals["__yield__"], v)
        return None

    def e_YieldFrom(self, e, f):
        self.list_extend(f.locals["__yield__"], self.eval(e.value, f))
        return None

    def bind_args(self, fn, a, args, kwargs, fr):
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        loc = fr.locals
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", "%s takes %d positional arguments" % (fn.name, len(names)))
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        for n in names[len(args):]:
            if n in kwargs:
                loc[n] = kwargs.pop(n)
        for n in names[:len(args)]:
            if n in kwargs:
                raise PyRaise("TypeError", "multiple values for argument %s" % n)
        nd = len(fn.defaults)
        for n, d in zip(names[len(names) - nd:], fn.defaults):
            if n not in loc:
                loc[n] = d
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                loc[k.arg] = kwargs.pop(k.arg)
            elif k.arg in fn.kwdefaults:
                loc[k.arg] = fn.kwdefaults[k.arg]
        for n in names + [k.arg for k in a.kwonlyargs]:
            if n not in loc:
                raise PyRaise("TypeError", "%s missing argument %s" % (fn.name, n))
        if a.kwarg is not None:
            loc[a.kwarg.arg] = PDict(kwargs)
        elif kwargs:
            raise PyRaise("TypeError", "%s got unexpected keyword %s" % (fn.name, list(kwargs)))

    # ------------------------------------------------------------- value merging
    def merge_value(self, c, a, b):
        """Value equal to a when c, else b."""
        if c is tm.TRUE or a is b:
            return a
        if c is tm.FALSE:
            return b
        if is_scalar(a) and is_scalar(b):
            ta, tb = tv(a), tv(b)
            if ta is tb:
                return a
            if ta.sort == B and tb.sort != B:
                ta = numterm(ta)
            if tb.sort == B and ta.sort != B:
                tb = numterm(tb)
            npf = (isinstance(a, Num) and a.np) and (isinstance(b, Num) and b.np)
            return mknum(tm.ite(c, ta, tb), npf)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.ndim != b.ndim:
                raise Unsupported("merge of arrays of different dimension")
            shape = []
            for x, y in zip(a.shape, b.shape):
                if x is y or self.ctx.entails(tm.eq(x, y)):
                    shape.append(x)
                else:
                    shape.append(tm.ite(c, x, y))
            fa, fb = a.snap(), b.snap()
            return Arr(Buf(lambda ix: tm.ite(c, fa(ix), fb(ix)), shape, a.dtype))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_value(c, x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            ta = strconst(a) if isinstance(a, str) else a.t
            tb = strconst(b) if isinstance(b, str) else b.t
            return SymStr(tm.ite(c, ta, tb))
        if isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)):
            return OpaqueStr()
        if isinstance(a, PList) and isinstance(b, PList) and a.head is None and b.head is None \
                and len(a.items) == len(b.items):
            return PList([self.merge_value(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, PObj) and isinstance(b, PObj) and a.cls is b.cls and set(a.attrs) == set(b.attrs):
            o = PObj(a.cls)
            for k in a.attrs:
                o.attrs[k] = self.merge_value(c, a.attrs[k], b.attrs[k])
            return o
        if a is None and b is None:
            return None
        if isinstance(a, V.ListBlock) and isinstance(b, V.ListBlock):
            if not (a.n is b.n or self.ctx.prove_eq(a.n, b.n)):
                from .loops import Varies
                raise Varies("number of items appended per iteration varies")
            return V.ListBlock(a.n, lambda i: self.merge_value(c, a.at(i), b.at(i)))
        raise Unsupported("cannot merge %r and %r" % (a, b))
