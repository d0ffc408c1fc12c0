"""Contract of CyclicVecBase<3,2,float>::rotate used when callers are verified (established by P10, entry rotation):
the position is the position rotated by the angle, the orientation the sum brought back by at most one turn - both are
functions of the arguments and nothing else is written."""
import re
import z3
from dom import *
import ir

NOINLINE = [r"CyclicVecBase<3, 2, float>::rotate\("]


def rot(ex, st, I, args):
    this, ang = args
    v = []
    for j in range(3):
        p = Ptr(this.obj, ex.offadd(this.off, 4 * j), this.hint)
        v.append((p, ex.load(st, p, ir.F32)))
    xs = [e for _, e in v] + [ang]
    for e in xs:
        if not e.plain():
            ex.oblig(st, band(bnot(e.nan), bnot(e.inf)), "rotation of defined values", "precondition")
    x, y, a, g = [zr(e.r) for e in xs]
    R = z3.RealSort()
    out = [z3.Function("rotate.x", R, R, R, R)(x, y, g), z3.Function("rotate.y", R, R, R, R)(x, y, g), z3.Function("rotate.a", R, R, R)(a, g)]
    for (p, _), o in zip(v, out):
        ex.store(st, p, 4, XR(o))
    return None


CONTRACTS = [(re.compile(r"CyclicVecBase<3, 2, float>::rotate\("), rot)]
