import os
import re
import z3
from dom import *
import foldtpl
INSIDE = r"polygon::inside\("
SEARCH = r"KdTreeFLANN<.*>::radiusSearch\("
UNITS = [dict(cpp="P24.cpp", name="P24", eh=True, entries=["braking"],
              flags=["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs_opaque"), "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"],
              libs=["-lboost_thread", "-lboost_system", "-lpthread"], noinline=[INSIDE, SEARCH])]


def progress(view):
    """k samples done: how far the robot has gone, and that no collision was met"""
    out = []
    g = view.st.ghost
    if "vdt" not in g:
        return out
    h = None
    for v, x in view.vals.items():
        if v[0] == "cell" and "firstHit" in str(v[1]):
            h = x
    if h is None or isinstance(h, XR):
        return out
    h = zi(h)
    k = zi(view.k)
    none = h < 0
    out.append(("hit", z3.Or(h == -1, h == 0)))
    out.append(("escapable", z3.Implies(h == 0, z3.And(zr(g["d_escape"].r) > 0, zr(g["yaw_escape"].r) > 0))))
    for n, x in foldtpl.reals(view):
        if x.nan is not False or x.inf is not False:
            continue
        for gn in ("vdt", "wdt"):
            out.append(("gone:%s:%s" % (gn, n), z3.Implies(none, zr(x.r) == z3.If(k <= 0, z3.RealVal(0), z3.ToReal(k - 1) * zr(g[gn].r)))))
        out.append(("noescape:%s" % n, z3.Implies(none, zr(x.r) <= 0)))
    for n, x in foldtpl.ints(view):
        if z3.is_int(x):
            out.append(("moved:%s" % n, x == z3.If(k <= 0, z3.IntVal(0), k - 1)))
            out.append(("now:%s" % n, z3.Implies(k > 0, (x == 0) == none)))
            out.append(("now1:%s" % n, z3.Implies(z3.Not(none), x == 1)))
    return out


class S:
    TEMPLATES = [progress]
    CONTRACTS = [(re.compile(INSIDE), "footprint_contract"), (re.compile(SEARCH), "search_contract")]


SPEC = {"braking": S}
ASSUMPTIONS = [
    "float and double arithmetic is exact (no rounding): the step count of the horizon and the braking distances are those of real arithmetic",
    "Eigen stand-in (stubs_opaque): a rigid motion is a power of the per-step motion the code composes; that the composed product of translation and rotation moves as intended is compared by its parts (translation vector, angle), and the native runs use the real Eigen",
    "which cloud points fall into the footprint is arbitrary (contract of polygon::inside); the radius search returns any set of points of the cloud; voxel filter and remove_if return any cloud",
    "parameters in their configured ranges with frequency, accelerations, dt and horizon above 0.01; the prediction runs on a non-empty cloud whose transform succeeds (the other cases are entry predict of P16)",
    "std::vector, shared_ptr and string are contracts",
]
BUDGET = 800
