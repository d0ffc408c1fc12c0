"""Contract of BlockMemGridmap used when its callers are verified (established by P01 and P02):
  operator[](p), 0<=p<size():  reference to the cell p of the map; distinct p are distinct memory
  clear(v): every cell is v          clear_positive(v): cells >= 0 become v, the others keep their value
  reset(s): size() is s, contents arbitrary      a = b: same size, same contents
The storage becomes an array keyed by the position."""
import re
from dom import *
from exe import Arr, Region
import exe
import ir

CLS = r"planner_cspace::(?:BlockMemGridmap<.*>|GridAstar<.*>::Gridmap<.*>)"
NOINLINE = [r"BlockMemGridmap<[^()]*>::operator\[\]\(", r"BlockMemGridmap<[^()]*>::clear\(",
            r"BlockMemGridmap<[^()]*>::clear_positive\(", r"BlockMemGridmap<[^()]*>::reset\(",
            r"BlockMemGridmap<[^()]*>::operator=\("]


def prefix(d):
    return re.match(r"(.*BlockMemGridmap<.*?>)::(?:operator|clear|reset)", d).group(1)


def dims(d):
    m = re.search(r"CyclicVecBase<(\d+), *(\d+),", d)
    return int(m.group(1)), int(m.group(2))


def info(ex, st, I):
    d = ex.demangle(I.x.v[1:]) if I.x.k == "global" else ex.demangle(ex.ev(st, I.x).obj[1])
    m = re.match(r"(.*BlockMemGridmap<.*?>)::(operator\[\]|operator=|clear_positive|clear|reset)\(", d)
    pre = m.group(1)
    t = re.search(r"BlockMemGridmap<(.*), (\d+), (\d+), (\d+), (\w+)>$", pre)
    dim, nonc = int(t.group(2)), int(t.group(3))
    return pre, dim, nonc


def storage(ex, st, pre, dim, nonc, this):
    """object holding the cells"""
    fn = ex.find_fn("%s::operator[](planner_cspace::CyclicVecBase<%d, %d, int> const&)" % (pre, dim, nonc))
    if fn is None:
        raise Unsupported("no accessor body for %s" % pre)
    z = ex.newobj(st, "abs:pos", 4 * dim, "stack")
    for i in range(dim):
        ex.store(st, Ptr(z, 4 * i), 4, 0)
    if pre.endswith("true>"):
        return storage_checked(ex, st, pre, this, fn, z)
    p = ex.sub_run(st, fn, [this, Ptr(z, 0)], fast=True)
    if not isinstance(p, Ptr) or p.obj is None:
        raise Unsupported("map without storage")
    del st.mem[z]
    return p.obj


def storage_checked(ex, st, pre, this, fn, z):
    raise Unsupported("range-checked map behind the contract")


def region(ex, st, H, dim):
    o = ex.wobj(st, H)
    r = o.regions.get(0)
    if r is None:
        r = o.regions[0] = Region(0, 1 << 30, None, "map:%s" % H, dim)
        o.size = None
    return r


def size(ex, st, pre, dim, this):
    fn = ex.find_fn(pre + "::size() const")
    if fn is None:
        raise Unsupported("no size()")
    sp = ex.sub_run(st, fn, [this])
    return [ex.toint(st, ex.load(st, Ptr(sp.obj, ex.offadd(sp.off, 4 * i), sp.hint), ir.tint(32))) for i in range(dim)]


def cell(ex, st, I, this, pos):
    pre, dim, nonc = info(ex, st, I)
    s = size(ex, st, pre, dim, this)
    p = [ex.toint(st, ex.load(st, Ptr(pos.obj, ex.offadd(pos.off, 4 * i), pos.hint), ir.tint(32))) for i in range(dim)]
    ex.oblig(st, band(*[band(ile(0, a), ilt(a, b)) for a, b in zip(p, s)]), "map access inside the map", "precondition")
    H = storage(ex, st, pre, dim, nonc, this)
    region(ex, st, H, dim)
    return Ptr(H, ("k", 0) + tuple(p)), pre


def access(ex, st, I, args):
    p, pre = cell(ex, st, I, args[0], args[1])
    if I.ty.k == "ptr":
        return p
    return ex.load(st, p, I.ty)


def structret(ex, st, I, args):
    p, pre = cell(ex, st, I, args[1], args[2])
    raise Unsupported("map element returned by value")


def setall(ex, st, H, dim, v, ty, cond=None):
    r = region(ex, st, H, dim)
    nb = ex.m.size(ty)
    a = ex.region_arr(st, r, 0, nb, ex.kindof(ty), st.mem[H])
    if cond is None:
        r.fields[0] = (nb, Arr(a.base, a.kind, (None, (lambda idx: True), (lambda idx: v)), a.rng))
    else:
        old = a
        r.fields[0] = (nb, Arr(a.base, a.kind, (a.ops, (lambda idx: cond(ex.sel(st, old, idx))), (lambda idx: v)), a.rng))


def clear(ex, st, I, args):
    pre, dim, nonc = info(ex, st, I)
    H = storage(ex, st, pre, dim, nonc, args[0])
    v = args[1]
    if isinstance(v, Ptr):
        # aggregate element passed by reference
        raise Unsupported("clear of aggregate map")
    ty = I.ops[1].ty
    if ty.k == "int" and ty.n < 8:
        ty = ir.tint(8)
    v = ex.cast_load(st, v, ty)
    setall(ex, st, H, dim, v, ty)
    return None


def clear_positive(ex, st, I, args):
    pre, dim, nonc = info(ex, st, I)
    H = storage(ex, st, pre, dim, nonc, args[0])
    v, ty = args[1], I.ops[1].ty
    c = (lambda x: ile(0, x)) if ty.k == "int" else (lambda x: xle(exe.XR(0), x))
    setall(ex, st, H, dim, v, ty, c)
    return None


def reset(ex, st, I, args):
    pre, dim, nonc = info(ex, st, I)
    fn = ex.m.fns[ex.ev(st, I.x).obj[1]]

    def done(ex, st, v):
        H = storage(ex, st, pre, dim, nonc, args[0])
        newcontent(ex, st, H, dim)
    ex.push(st, fn, args, None, "reset@%d" % st.frames[-1].ip, done)
    # the caller resumes after the body; nothing to return
    return None


def newcontent(ex, st, H, dim):
    r = region(ex, st, H, dim)
    for f, (nb, a) in list(r.fields.items()):
        r.fields[f] = (nb, Arr(st.uniq("content:%s" % H), a.kind))


def assign(ex, st, I, args):
    pre, dim, nonc = info(ex, st, I)
    fn = ex.find_fn("%s::reset(planner_cspace::CyclicVecBase<%d, %d, int> const&)" % (pre, dim, nonc))
    sz = ex.find_fn(pre + "::size() const")
    sp = ex.sub_run(st, sz, [args[1]])
    dst = I.dst

    def done(ex, st, v):
        H = storage(ex, st, pre, dim, nonc, args[0])
        S = storage(ex, st, pre, dim, nonc, args[1])
        rs, rd = region(ex, st, S, dim), region(ex, st, H, dim)
        if not rs.fields:
            for f, (nb, a) in rd.fields.items():
                ex.region_arr(st, rs, f, nb, a.kind, st.mem[S])
        if not rs.fields:
            raise Unsupported("assignment of a map with unknown element type")
        for f, (nb, a) in rs.fields.items():
            rd.fields[f] = (nb, a)
        if dst:
            st.frames[-1].regs[dst] = args[0]
    ex.push(st, fn, [args[0], sp], None, "assign@%d" % st.frames[-1].ip, done)
    return None


CONTRACTS = [
    (re.compile(r"BlockMemGridmap<[^()]*>::operator\[\]\("), access),
    (re.compile(r"BlockMemGridmap<[^()]*>::clear\("), clear),
    (re.compile(r"BlockMemGridmap<[^()]*>::clear_positive\("), clear_positive),
    (re.compile(r"BlockMemGridmap<[^()]*>::reset\("), reset),
    (re.compile(r"BlockMemGridmap<[^()]*>::operator=\("), assign),
]


class Spec:
    CONTRACTS = CONTRACTS


def content(ex, st, I, a):
    """vc_map_(cell, kind, name, lo, hi)"""
    import models
    p, kind, name, lo, hi = a
    name = st.uniq(models.cstr(ex, st, name))
    ty = models.KT[kind]
    o = ex.wobj(st, p.obj)
    r = o.regions[0]
    lo, hi = models.rat(lo.r), models.rat(hi.r)
    if ty.k == "int":
        lo, hi = int(lo), int(hi)
    f = p.off[1]
    r.fields[f] = (ex.m.size(ty), Arr(name, ex.kindof(ty), None, (lo, hi)))
    models.nd(st, name, "arr", (name, ex.kindof(ty), r.multi, (lo, hi)))
    return None
