"""Contract of CyclicVecBase<DIM,NONCYCLIC,int>::cycle / cycleUnsigned used when callers are verified (established by P03):
for every cyclic element e with resolution r >= 1, |e| <= 2^30: the element becomes the value congruent to e modulo r
inside [r/2 - r, r/2) (cycle) or [0, r) (cycleUnsigned); the other elements are unchanged."""
import re
import z3
from dom import *
import ir

NOINLINE = [r"CyclicVecBase<\d+, \d+, int>::cycle(Unsigned)?(<[^()]*>)?\("]


def cyc(ex, st, I, args):
    d = ex.demangle(I.x.v[1:]) if I.x.k == "global" else ex.demangle(ex.ev(st, I.x).obj[1])
    m = re.search(r"CyclicVecBase<(\d+), (\d+), int>::cycle(Unsigned)?(?:<[^()]*>)?\(", d)
    dim, non, uns = int(m.group(1)), int(m.group(2)), bool(m.group(3))
    this = args[0]
    rs = []
    if re.search(r"\((const )?planner_cspace::CyclicVecBase<", d):
        # a vector of resolutions: those of the cyclic elements
        v = args[1]
        rs = [ex.toint(st, ex.load(st, Ptr(v.obj, ex.offadd(v.off, 4 * j), v.hint), ir.tint(32))) for j in range(non, dim)]
        args = args[:1]
    for a in args[1:]:
        rs.append(ex.toint(st, ex.load(st, a, ir.tint(32))) if isinstance(a, Ptr) else a)
    if len(rs) > dim - non:
        raise Unsupported("cycle with %d resolutions" % len(rs))
    for j, r in enumerate(rs):
        p = Ptr(this.obj, ex.offadd(this.off, 4 * (non + j)), this.hint)
        e = ex.toint(st, ex.load(st, p, ir.tint(32)))
        ex.oblig(st, ile(1, r), "resolution of a cyclic element is positive", "precondition")
        ex.oblig(st, band(ile(-(1 << 30), e), ile(e, 1 << 30)), "cyclic element within range", "precondition")
        lo, hi = (0, r) if uns else (isub(idiv2(r), r), idiv2(r))
        if not isz(e) and not isz(r) and r >= 1:
            v = (e - lo) % r + lo
        else:
            f = z3.Function("cycleUnsigned" if uns else "cycle", z3.IntSort(), z3.IntSort(), z3.IntSort())
            g = z3.Function("turnsUnsigned" if uns else "turns", z3.IntSort(), z3.IntSort(), z3.IntSort())
            v = f(zi(e), zi(r))
            rl, rh = ex.rng(r)
            if rh is not None:
                ex.setrng(v, 0 if uns else rh // 2 - rh, rh - 1 if uns else rh // 2)
            st.fact(zb(ile(lo, v)))
            st.fact(zb(ilt(v, hi)))
            st.fact(z3.Implies(zb(band(ile(lo, e), ilt(e, hi))), v == zi(e)))
            st.fact(z3.Implies(zb(band(ile(isub(lo, r), e), ilt(e, lo))), v == zi(e) + zi(r)))
            st.fact(z3.Implies(zb(band(ile(hi, e), ilt(e, iadd(hi, r)))), v == zi(e) - zi(r)))
            st.fact(v == zi(e) - zi(r) * g(zi(e), zi(r)))
        ex.store(st, p, 4, v)
    return None


def idiv2(r):
    return idivf(r, 2)


CONTRACTS = [(re.compile(r"CyclicVecBase<\d+, \d+, int>::cycle(Unsigned)?(<[^()]*>)?\("), cyc)]
