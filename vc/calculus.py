"""Symbolic differentiation of specification terms."""
from . import terms as tm


def diff(t, x, known={}):
    """d t / d x (x a free real symbol); known: derivative of a function of x in its last argument."""
    if t is x:
        return tm.num(1.0)
    if x not in tm.fv(t):
        return tm.num(0.0)
    op = t.op
    if op == "add":
        return tm.add(*[diff(a, x, known) for a in t.args])
    if op == "mul":
        out = []
        for i, a in enumerate(t.args):
            if x in tm.fv(a):
                out.append(tm.mul(*(t.args[:i] + (diff(a, x, known),) + t.args[i + 1:])))
        return tm.add(*out)
    if op == "div":
        a, b = t.args
        return tm.sub(tm.div(diff(a, x, known), b), tm.div(tm.mul(a, diff(b, x, known)), tm.mul(b, b)))
    if op == "pow":
        b, e = t.args
        if x in tm.fv(e):
            return tm.mul(t, tm.add(tm.mul(diff(e, x, known), tm.log(b)), tm.div(tm.mul(e, diff(b, x, known)), b)))
        return tm.mul(e, tm.pow_(b, tm.sub(e, tm.num(1.0) if e.sort == tm.R else tm.ONE)), diff(b, x, known))
    if op == "exp":
        return tm.mul(t, diff(t.args[0], x, known))
    if op == "log":
        return tm.div(diff(t.args[0], x, known), t.args[0])
    if op == "ite":
        if x in tm.fv(t.args[0]):
            raise ValueError("derivative of a condition")
        return tm.ite(t.args[0], diff(t.args[1], x, known), diff(t.args[2], x, known))
    if op == "Sum":
        return tm.rebind("Sum", t, lambda b: diff(b, x, known))
    if op == "app" and t.args[0] in known and t.args[-1] is x and not any(x in tm.fv(a) for a in t.args[1:-1]):
        return tm.mk("app", (known[t.args[0]],) + t.args[1:], t.sort)
    raise ValueError("derivative of %s" % op)
