"""Loop invariant candidates over a sequence of records: what holds of the elements already visited.
An index of the loop is an integer (or a pointer into the sequence) that steps by one element."""
import z3
from dom import *


def indices(view, size=None):
    """[(name, I)] of the innermost loop: I elements have been visited"""
    out = []
    if not view.levels:
        return out
    first = view.act.cell0
    for var, v, stp in view.levels[-1]:
        if stp not in (1, -1):
            continue
        v0 = first.get(var)
        if stp == 1 and (isinstance(v0, int) or isz(v0)) and not isinstance(v0, bool):
            v = isub(v, v0)
        out.append((str(var), v))
    for var, p, stp in view.ptrs[-1]:
        if not size or stp != size or isinstance(p.off, tuple):
            continue
        v0 = first.get(var)
        off = isub(p.off, v0.off) if isinstance(v0, Ptr) and v0.obj == p.obj and not isinstance(v0.off, tuple) else p.off
        d, c = lin(off)
        if c % size == 0 and all(m % size == 0 for _, m in d.values()):
            t = c // size
            for e, m in d.values():
                t = iadd(t, imul(e, m // size))
            out.append((str(var), t))
    return out


def reals(view):
    return [(str(v), x) for v, x in sorted(view.vals.items(), key=lambda e: str(e[0])) if isinstance(x, XR)]


def ints(view):
    return [(str(v), zi(x)) for v, x in sorted(view.vals.items(), key=lambda e: str(e[0]))
            if not isinstance(x, (XR, Ptr, Cat, Vec, Agg, bool)) and x is not UNDEF and (isinstance(x, int) or isz(x) and z3.is_int(x))]
