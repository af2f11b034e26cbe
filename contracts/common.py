"""Shared preconditions and specification functions."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import terms as tm                      # noqa: E402
from vc.terms import R, I, B, U                 # noqa: E402
from vc.values import *                         # noqa: E402,F401,F403
from vc.harness import H, group, Group, ObligationFailed   # noqa: E402,F401

Z, ONE = tm.ZERO, tm.ONE
num, sym, app, add, sub, mul, div = tm.num, tm.sym, tm.app, tm.add, tm.sub, tm.mul, tm.div
R0 = tm.num(0.0)
PI = tm.PI


def half():
    return tm.num("1/2") if False else tm.div(tm.num(1.0), tm.num(2.0))


def frac(a, b):
    return tm.div(tm.num(float(a)), tm.num(float(b)))


def el(a, *ix):
    """Element of an interpreter array, checking the dimension."""
    if not isinstance(a, Arr):
        raise ObligationFailed("array expected, code returns %r" % (a,))
    if a.ndim != len(ix):
        raise ObligationFailed("array of dimension %d expected, code returns shape %s" % (
            len(ix), [tm.show(s) for s in a.shape]))
    return a.get(tuple(tm.lift(i) for i in ix))
