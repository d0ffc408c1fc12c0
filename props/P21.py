import z3
from dom import *
import foldtpl
UNITS = [dict(cpp="P21.cpp", name="P21", entries=["radius_covers", "radius_attained", "moving", "rigid", "inside", "outline_distance", "edge_distance"])]


def xy(i):
    return [z3.Function(n, z3.IntSort(), z3.RealSort())(zi(i)) for n in "xy"]


def covered(view):
    """after element k every candidate holds"""
    out = []
    k = view.st.skolem.get("k")
    for gn in ("covered", "covered2"):
        g = view.st.ghost.get(gn)
        if g is None or k is None:
            continue
        for n, x in foldtpl.reals(view):
            for m, i in foldtpl.indices(view, 8):
                out.append(("split:k:%s<=:%s:%s" % (gn, n, m), bor(ile(i, k), rle(g.r, x.r))))
                out.append(("split:k:%s>=:%s:%s" % (gn, n, m), bor(ile(i, k), rle(x.r, g.r))))
    return out


def bounded(view):
    """every vertex lies within the bound"""
    out = []
    R, n = view.st.ghost.get("bound"), view.st.ghost.get("vertices")
    if R is None:
        return out
    for m, i in foldtpl.indices(view, 8):
        x, y = xy(i)
        view.st.fact(z3.Implies(z3.And(zi(i) >= 0, zi(i) < zi(n)), x * x + y * y <= zr(R.r) * zr(R.r)))
    for n, x in foldtpl.reals(view):
        out.append(("bound:%s" % n, rle(x.r, R.r)))
        out.append(("bound2:%s" % n, rle(x.r, rmul(R.r, R.r))))
    return out


def parity(view):
    """odd(i): parity of the edges 0..i-1 crossed by the ray from the point to the right (recursive definition)"""
    out = []
    ax, ay = view.st.ghost.get("ax"), view.st.ghost.get("ay")
    if ax is None:
        return out
    ax, ay = zr(ax.r), zr(ay.r)
    F = z3.Function("odd/1", z3.IntSort(), z3.IntSort())
    # F is applied to no argument list shorter than one: F(0) is written odd/1(0)
    for m, i in foldtpl.indices(view, 8):
        i = zi(i)
        (ux, uy), (wx, wy) = xy(i), xy(i + 1)
        t = (wx - ux) * (ay - uy) - (ax - ux) * (wy - uy)
        cross = z3.Or(z3.And(uy <= ay, ay < wy, t > 0), z3.And(wy <= ay, ay < uy, t < 0))
        view.st.fact(F(z3.IntVal(0)) == 0)
        view.st.fact(F(i + 1) == z3.If(cross, 1 - F(i), F(i)))
        view.st.fact(z3.And(F(i) >= 0, F(i) <= 1))
        for n, x in foldtpl.ints(view):
            if z3.is_int(x):
                out.append(("par:%s:%s" % (n, m), imod(x, 2) == F(i)))
            else:
                out.append(("par:%s:%s" % (n, m), x == (F(i) == 1)))
    return out


class S:
    TEMPLATES = [covered, bounded, parity]


SPEC = {e: S for e in UNITS[0]["entries"]}
ASSUMPTIONS = ["1 to 2^20 vertices, coordinates up to 100 m; exact real arithmetic", "std::vector is its contract (include/vcstl.h)",
               "the crossing parity is defined recursively over the edges; the inductive step is taken from that definition"]
