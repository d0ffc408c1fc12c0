"""Semantics of the contract primitives, LLVM intrinsics and the few external functions the code reaches.
Everything here except vc_* is part of the trusted base."""
import re
from fractions import Fraction
import z3
from dom import *
import ir
from ir import F32, F64, PTR, tint
import exe
from exe import Arr, Region, Obj, PathEnd, SQRT, SIN, COS, ATAN2, EXPF, LOGF, POWF

MODELS = {}
RX = []
INTR = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def intr(*names):
    def d(f):
        for n in names:
            INTR.append((n, f))
        return f
    return d


def rx(p):
    def d(f):
        RX.append((re.compile(p), f))
        return f
    return d


def cstr(ex, st, p):
    if not isinstance(p, Ptr) or p.obj is None or not isinstance(p.obj, str):
        raise Unsupported("string literal expected")
    o = ex.obj(st, p.obj)
    s = []
    q = p.off
    while True:
        c = o.cells.get(q)
        if c is None:
            raise Unsupported("string literal expected (%s)" % p.obj)
        if c[1] == 0:
            break
        s.append(chr(c[1] & 255))
        q += 1
    return "".join(s)


def rat(x):
    if isz(x):
        x = z3.simplify(x)
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return Fraction(x)


def nd(st, name, kind, t, lo=None, hi=None):
    st.nondet.append((name, kind, t, lo, hi))


# ------------------------------------------------------------------ contract primitives
def _vi(kind):
    def f(ex, st, I, a):
        n = st.uniq(cstr(ex, st, a[0]))
        v = z3.Int(n)
        lo, hi = a[1], a[2]
        l2 = ex.rng(lo)[0]
        h2 = ex.rng(hi)[1]
        ex.setrng(v, l2, h2)
        st.fact(zi(lo) <= v)
        st.fact(v <= zi(hi))
        if isz(lo) or isz(hi):
            if not ex.feasible(st, z3.BoolVal(True)):
                raise PathEnd()
        nd(st, n, kind, v, l2, h2)
        if kind == "skolem":
            st.skolem[n] = v
        return v
    return f


MODELS["vc_i"] = _vi("int")
MODELS["vc_sz"] = _vi("size")
MODELS["vc_skolem"] = _vi("skolem")


@model("vc_r")
def _(ex, st, I, a):
    n = st.uniq(cstr(ex, st, a[0]))
    v = z3.Real(n)
    st.fact(zr(a[1].r) <= v)
    st.fact(v <= zr(a[2].r))
    if not isz(a[1].r):
        ex.rlo[v.get_id()] = a[1].r
        ex.keep.append(v)
    nd(st, n, "real", v)
    return XR(v)


@model("vc_x")
def _(ex, st, I, a):
    n = st.uniq(cstr(ex, st, a[0]))
    v, na, inf = z3.Real(n), z3.Bool(n + ":nan"), z3.Bool(n + ":inf")
    st.fact(z3.Not(z3.And(na, inf)))
    st.fact(z3.Implies(inf, v != 0))
    nd(st, n, "xreal", (v, na, inf))
    return XR(v, na, inf)


@model("vc_b")
def _(ex, st, I, a):
    n = st.uniq(cstr(ex, st, a[0]))
    v = z3.Bool(n)
    nd(st, n, "bool", v)
    return v


@model("vc_pick")
def _(ex, st, I, a):
    n = st.uniq(cstr(ex, st, a[0]))
    k = a[1]
    fr = st.frames[-1]
    for i in range(k - 1, 0, -1):
        s2 = st.fork()
        s2.case += "%s=%d;" % (n, i)
        s2.nondet.append((n, "const", i, None, None))
        if I.dst:
            s2.frames[-1].regs[I.dst] = i
        ex.work.append(s2)
    st.case += "%s=0;" % n
    nd(st, n, "const", 0)
    return 0


def tb(v):
    if isinstance(v, bool) or z3.is_bool(v):
        return v
    return bnot(ieq(v, 0))


@model("vc_assume")
def _(ex, st, I, a):
    c = tb(a[0])
    if isz(c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return None
        if z3.is_false(c):
            raise PathEnd()
        st.fact(c)
        if not ex.feasible(st, z3.BoolVal(True)):
            raise PathEnd()
    elif not c:
        raise PathEnd()
    return None


@model("vc_prove", "vc_lemma")
def _(ex, st, I, a):
    ex.labels[cstr(ex, st, a[1])] = ex.labels.get(cstr(ex, st, a[1]), 0) + 1
    ex.oblig(st, tb(a[0]), cstr(ex, st, a[1]), "prove")
    return None


def _eq(ex, st, I, a):
    l = cstr(ex, st, a[-1])
    x, y = ex.tofp(st, a[0]), ex.tofp(st, a[1])
    ex.labels[l] = ex.labels.get(l, 0) + 1
    ex.oblig(st, xeq(x, y), l, "prove")


def _le(ex, st, I, a):
    l = cstr(ex, st, a[-1])
    x, y = ex.tofp(st, a[0]), ex.tofp(st, a[1])
    ex.labels[l] = ex.labels.get(l, 0) + 1
    ex.oblig(st, xle(x, y), l, "prove")


MODELS["vc_eq"] = MODELS["vc_eqt"] = _eq
MODELS["vc_le"] = MODELS["vc_let"] = _le


@model("vc_cover")
def _(ex, st, I, a):
    l = cstr(ex, st, a[0])
    c = ex.covers.setdefault(l, [])
    if len(c) < 6:
        c.append(tuple(st.pc))
    return None


@model("vc_use", "vc_user")
def _(ex, st, I, a):
    return None


@model("vc_ghost_i", "vc_ghost_r")
def _(ex, st, I, a):
    st.ghost[cstr(ex, st, a[0])] = a[1]
    return None


@model("vc_native")
def _(ex, st, I, a):
    return False


KT = {1: tint(8), 2: tint(16), 4: tint(32), 8: tint(64), 104: F32, 108: F64}


@model("vc_watch_")
def _(ex, st, I, a):
    ty = KT[a[1]]
    old = ex.load(st, a[0], ty)
    if old is UNDEF:
        return None
    st.watch.append(("%d" % len(st.watch), (a[0], ty), old))
    return None


@model("vc_fill_i", "vc_fill_r")
def _(ex, st, I, a):
    ty = KT[a[1]]
    old = ex.load(st, a[0], ty)
    st.fills.append((a[0], ty, old, a[2], tb(a[3]), (a[4], a[5], a[6])))
    return None


@model("vc_arr_i_", "vc_arr_r_")
def _(ex, st, I, a):
    p, count, stride, kind, name, lo, hi = a
    name = st.uniq(cstr(ex, st, name))
    ty = KT[kind]
    nb = ex.m.size(ty)
    if ty.k in ("f32", "f64"):
        rng = (rat(lo.r), rat(hi.r))
    else:
        rng = (lo, hi)
    o = ex.wobj(st, p.obj)
    off = p.off
    if isz(off):
        raise Unsupported("array contents at symbolic offset")
    if o.kind == "map":
        r = o.regions[0]
        r.fields[0] = (nb, Arr(name, ex.kindof(ty), None, rng))
        nd(st, name, "arr", (name, ex.kindof(ty), r.multi, rng))
        return None
    if o.kind in ("heap",) and off == 0 or 0 in o.regions:
        r = o.regions.get(0)
        if r is None:
            if o.cells:
                o.cells = {}
            r = o.regions[0] = Region(0, stride, None, "%s[0]" % o.name)
        if r.stride != stride:
            raise Unsupported("array stride")
        r.fields[off % stride] = (nb, Arr(name, ex.kindof(ty), None, rng))
    else:
        # array inside a struct / stack object
        if not isz(count) and count <= 64:
            for i in range(count):
                v = ex.base(st, Arr(name, ex.kindof(ty), None, rng), (i,))
                ex.store(st, Ptr(p.obj, off + i * stride), nb, v, False)
        else:
            r = o.regions[off] = Region(off, stride, count, "%s[%d]" % (o.name, off))
            r.fields[0] = (nb, Arr(name, ex.kindof(ty), None, rng))
    nd(st, name, "arr", (name, ex.kindof(ty), 1, rng))
    return None


@model("vc_hint")
def _(ex, st, I, a):
    st.hints.append((ex.m.fns[a[0].obj[1]], None))
    return None


@model("vc_done_")
def _(ex, st, I, a):
    st.hints.append((ex.m.fns[a[0].obj[1]], tuple(a[2:2 + a[1]])))
    return None


@model("vc_alloc_")
def _(ex, st, I, a):
    n = ex.newobj(st, "seq:%s" % ex.here(st).split("/")[-1], None, "heap")
    w = ex.wobj(st, n)
    w.regions[0] = Region(0, a[0], None, "%s[0]" % n)
    return Ptr(n, 0)


@model("vc_link_")
def _(ex, st, I, a):
    p, q, sz = a
    if not isz(q.off) and not isinstance(q.off, tuple):
        ex.wobj(st, p.obj).link = (q.obj, q.off, sz)
    return None


@model("vc_clone_")
def _(ex, st, I, a):
    d, s = ex.wobj(st, a[0].obj), ex.obj(st, a[1].obj)
    if a[0].off != 0 or a[1].off != 0:
        raise Unsupported("clone of a part of a sequence")
    if s.regions:
        d.regions = {k: r.clone() for k, r in s.regions.items()}
    else:
        # an ordinary array: migrate its cells
        r = d.regions[0]
        r.fields = {}
        for off, (nb, v) in sorted(s.cells.items()):
            ex.region_put(st, r, off % r.stride, (off // r.stride,), nb, v)
    return None


@model("vc_rfill_")
def _(ex, st, I, a):
    p, lo, hi, proto, sz = a
    po = ex.obj(st, proto.obj)
    if isz(proto.off) or isinstance(proto.off, tuple) or po.regions:
        raise Unsupported("fill value at symbolic place")
    o = ex.wobj(st, p.obj)
    r = o.regions[0]
    for off, (nb, v) in sorted(po.cells.items()):
        f = off - proto.off
        if f < 0 or f >= sz or v is UNDEF:
            continue
        for g, n2, x in ([(f, nb, v)] if not isinstance(v, Cat) else _catparts(f, v)):
            if isinstance(x, bool) or z3.is_bool(x):
                x = iite(x, 1, 0)
            arr = ex.region_arr(st, r, g, n2, ex.kind_of_val(x, n2), o)
            r.fields[g] = (n2, Arr(arr.base, arr.kind, (arr.ops, (lambda idx: band(ile(lo, idx[0]), ilt(idx[0], hi))),
                                                        (lambda idx, x=x: x)), arr.rng, arr.const))
    return None


def _catparts(f, v):
    out = []
    for n, x in v.p:
        out.append((f, n, x))
        f += n
    return out


@model("vc_rshift_")
def _(ex, st, I, a):
    p, frm, d = a
    r = ex.wobj(st, p.obj).regions[0]
    for f, (nb, arr) in list(r.fields.items()):
        r.fields[f] = (nb, Arr(arr.base, arr.kind, (arr.ops, (lambda idx: ile(frm, idx[0])),
                                                    (lambda idx, arr=arr: ex.sel(st, arr, (iadd(idx[0], d),)))), arr.rng, arr.const))
    return None


@model("vc_bytes_")
def _(ex, st, I, a):
    n = ex.obj(st, a[0].obj).size
    if n is None:
        raise Unsupported("size of an abstract object")
    return n


@model("_ZN5boost6chrono12steady_clock3nowEv", "_ZN5boost6chrono12system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv",
       "_ZNSt6chrono3_V212system_clock3nowEv")
def _(ex, st, I, a):
    # some time up to a century from the epoch, in nanoseconds
    v = z3.Int(st.uniq("now"))
    ex.setrng(v, 0, 1 << 62)
    st.fact(z3.And(0 <= v, v <= (1 << 62)))
    return v


@model("vc_fresh_")
def _(ex, st, I, a):
    v = z3.Int(st.uniq("fresh!"))
    return v


def _uf(sort, wrap):
    def f(ex, st, I, a):
        lo, hi, xs = (None, None, a[1:]) if sort is z3.BoolSort else (a[1], a[2], a[3:])
        xs = [zi(ex.toint(st, x)) for x in xs]
        while len(xs) > 1 and z3.is_int_value(xs[-1]) and xs[-1].as_long() == 0:
            xs.pop()
        v = z3.Function("%s/%d" % (cstr(ex, st, a[0]), len(xs)), *([z3.IntSort()] * len(xs) + [sort()]))(*xs)
        if sort is z3.IntSort:
            ex.setrng(v, ex.rng(lo)[0], ex.rng(hi)[1])
            st.fact(zi(lo) <= v)
            st.fact(v <= zi(hi))
        elif sort is z3.RealSort:
            st.fact(zr(lo.r) <= v)
            st.fact(v <= zr(hi.r))
        return wrap(v)
    return f


MODELS["vc_uf_i_"] = _uf(z3.IntSort, lambda v: v)
MODELS["vc_uf_r_"] = _uf(z3.RealSort, XR)
MODELS["vc_uf_b_"] = _uf(z3.BoolSort, lambda v: v)


@model("vc_map_")
def _(ex, st, I, a):
    import gridabs
    return gridabs.content(ex, st, I, a)


# ------------------------------------------------------------------ allocation, failure
def _new(ex, st, I, a):
    n = a[0]
    if isz(n):
        n = ex.u(st, n, 64)
        ex.assumed.add("operator new succeeds for the requested size")
    elif n < 0:
        ex.oblig(st, False, "allocation size overflow", "memory")
        raise PathEnd()
    ob = ex.newobj(st, "heap:%s" % ex.here(st).split("/")[-1], n, "heap")
    return Ptr(ob, 0)


for _n in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "malloc", "_ZnwmRKSt9nothrow_t"):
    MODELS[_n] = _new


def _del(ex, st, I, a):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is None:
        return None
    if p is UNDEF:
        ex.oblig(st, False, "delete of indeterminate pointer", "memory")
        raise PathEnd()
    if isinstance(p.obj, tuple) or p.obj not in st.mem:
        raise Unsupported("delete of unknown storage")
    o = ex.wobj(st, p.obj)
    if o.freed:
        ex.oblig(st, False, "double free", "memory")
        raise PathEnd()
    if any(x is not None and False for x in ()):
        pass
    o.freed = True
    return None


for _n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t", "free"):
    MODELS[_n] = _del


@model("__assert_fail")
def _(ex, st, I, a):
    ex.oblig(st, False, "assertion %s" % cstr(ex, st, a[0])[:80], "assert")
    raise PathEnd()


@model("abort", "_ZSt9terminatev", "__cxa_throw", "__cxa_rethrow", "_ZSt17__throw_bad_allocv",
       "_ZSt20__throw_length_errorPKc", "_ZSt25__throw_bad_function_callv", "_ZSt20__throw_out_of_rangePKc",
       "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt28__throw_bad_array_new_lengthv", "__cxa_throw_bad_array_new_length",
       "_ZSt19__throw_logic_errorPKc", "_ZSt24__throw_invalid_argumentPKc", "__cxa_bad_cast", "__cxa_pure_virtual")
def _(ex, st, I, a):
    if I.x.v == "@__cxa_throw" and isinstance(a[1], Ptr) and ex.unwind(st, (a[0], a[1].obj)):
        return None
    ex.oblig(st, False, "no exception / abort (%s)" % ex.demangle(I.x.v[1:]).split("(")[0], "exception")
    raise PathEnd()


@model("pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_mutex_init", "pthread_mutex_destroy",
       "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_init", "pthread_cond_destroy")
def _(ex, st, I, a):
    return 0  # events are handled one at a time: a lock is always free


@model("__cxa_allocate_exception")
def _(ex, st, I, a):
    return Ptr(ex.newobj(st, "exception", a[0], "heap"), 0)


@model("__cxa_begin_catch", "__cxa_get_exception_ptr")
def _(ex, st, I, a):
    return a[0]


@model("__cxa_end_catch", "__cxa_free_exception")
def _(ex, st, I, a):
    return None


@model("llvm.eh.typeid.for", "llvm.eh.typeid.for.p0")
def _(ex, st, I, a):
    return ex.typeid(a[0].obj)


@model("__cxa_guard_acquire")
def _(ex, st, I, a):
    v = ex.load(st, a[0], tint(8))
    return 0 if not isz(v) and v != 0 else 1


@model("__cxa_guard_release")
def _(ex, st, I, a):
    ex.store(st, a[0], 1, 1)
    return None


@model("__cxa_atexit", "printf", "puts", "fprintf", "putchar", "fflush")
def _(ex, st, I, a):
    return 0


@model("strlen")
def _(ex, st, I, a):
    return len(cstr(ex, st, a[0]))


@model("memcmp", "bcmp")
def _(ex, st, I, a):
    if isz(a[2]):
        raise Unsupported("memcmp symbolic")
    ne = []
    for i in range(a[2]):
        x = ex.load(st, Ptr(a[0].obj, ex.offadd(a[0].off, i)), tint(8))
        y = ex.load(st, Ptr(a[1].obj, ex.offadd(a[1].off, i)), tint(8))
        ne.append(ieq(x, y))
    e = band(*ne)
    return iite(e, 0, 1)


@model("memmove", "memcpy")
def _(ex, st, I, a):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


@model("memset")
def _(ex, st, I, a):
    ex.memset(st, a[0], a[1] if isz(a[1]) else a[1] & 255, a[2])
    return a[0]


# ------------------------------------------------------------------ intrinsics
@intr("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias", "llvm.invariant", "llvm.stackrestore", "llvm.prefetch",
      "llvm.donothing", "llvm.var.annotation")
def _(ex, st, I, a):
    return None


@intr("llvm.stacksave")
def _(ex, st, I, a):
    return NULL


@intr("llvm.assume")
def _(ex, st, I, a):
    c = tb(a[0])
    if c is not True:
        ex.oblig(st, c, "optimiser assumption holds", "assume")
    return None


@intr("llvm.expect")
def _(ex, st, I, a):
    return a[0]


@intr("llvm.is.constant")
def _(ex, st, I, a):
    return False


@intr("llvm.objectsize")
def _(ex, st, I, a):
    return -1


@intr("llvm.trap")
def _(ex, st, I, a):
    ex.oblig(st, False, "trap reached", "unreachable")
    raise PathEnd()


@intr("llvm.memcpy", "llvm.memmove")
def _(ex, st, I, a):
    if a[0] is UNDEF or a[1] is UNDEF:
        if not isz(a[2]) and a[2] == 0:
            return None
    ex.memcpy(st, a[0], a[1], a[2])
    return None


@intr("llvm.memset")
def _(ex, st, I, a):
    ex.memset(st, a[0], a[1] if isz(a[1]) else a[1] & 255, a[2])
    return None


def vmap(f):
    def g(ex, st, I, a):
        if isinstance(a[0], Vec):
            return Vec([f(ex, st, I, [x.e[i] if isinstance(x, Vec) else x for x in a]) for i in range(len(a[0].e))])
        return f(ex, st, I, a)
    return g


def ab(ex, st, I, a):
    x = a[0]
    if not isz(x):
        return abs(x)
    lo, hi = ex.rng(x)
    if lo is not None and lo >= 0:
        return x
    r = z3.If(x < 0, -x, x)
    if lo is not None and hi is not None:
        ex.setrng(r, 0, max(-lo, hi))
    w = I.ty.n if I.ty is not None and I.ty.k == "int" else 32
    return ex.fit(st, r, w, {"nsw"}, "abs")


INTR.append(("llvm.abs", vmap(ab)))
MODELS["abs"] = MODELS["labs"] = ab


def mm(pick, uns):
    def f(ex, st, I, a):
        x, y = a[0], a[1]
        if uns:
            w = I.ty.n if I.ty.k == "int" else I.ty.el.n
            c = ilt(ex.u(st, x, w), ex.u(st, y, w))
        else:
            c = ilt(x, y)
        return iite(c, x, y) if pick == "min" else iite(c, y, x)
    return vmap(f)


INTR.append(("llvm.smin", mm("min", False)))
INTR.append(("llvm.smax", mm("max", False)))
INTR.append(("llvm.umin", mm("min", True)))
INTR.append(("llvm.umax", mm("max", True)))


def ovf(op, uns):
    def f(ex, st, I, a):
        x, y = a[0], a[1]
        w = None
        if I.ty.k == "struct":
            w = I.ty.el[0].n
        if uns:
            x, y = ex.u(st, x, w), ex.u(st, y, w)
        t = {"add": iadd, "sub": isub, "mul": imul}[op](x, y)
        lo, hi = (0, (1 << w) - 1) if uns else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if not isz(t):
            o = not (lo <= t <= hi)
            return Agg([(t + (1 << (w - 1))) % (1 << w) - (1 << (w - 1)), o])
        if ex.inrange(t, lo, hi) or ex.provable(st, z3.And(t >= lo, t <= hi)):
            return Agg([ex.from_u(st, t, w) if uns else t, False])
        c = z3.Or(t < lo, t > hi)
        h = 1 << (w - 1)
        r = (t + h) % (1 << w) - h
        ex.setrng(r, -h, h - 1)
        return Agg([r, c])
    return f


for _op in ("add", "sub", "mul"):
    INTR.append(("llvm.s%s.with.overflow" % _op, ovf(_op, False)))
    INTR.append(("llvm.u%s.with.overflow" % _op, ovf(_op, True)))


def fsh(right):
    def f(ex, st, I, a):
        w = I.ty.n
        k = a[2]
        if isz(k):
            raise Unsupported("variable funnel shift")
        k %= w
        x, y = ex.u(st, ex.toint(st, a[0]), w), ex.u(st, ex.toint(st, a[1]), w)
        if right:
            k = (w - k) % w
        if k == 0:
            return a[1] if right else a[0]
        t = iadd(imul(imod(x, 1 << (w - k)), 1 << k), idivf(y, 1 << (w - k)))
        return ex.from_u(st, t, w)
    return f


INTR.append(("llvm.fshl", fsh(False)))
INTR.append(("llvm.fshr", fsh(True)))


# ------------------------------------------------------------------ floating point
def f1(f):
    def g(ex, st, I, a):
        if a and isinstance(a[0], Vec):
            return Vec([f(ex, st, *[ex.tofp(st, x.e[i]) for x in a]) for i in range(len(a[0].e))])
        return f(ex, st, *[ex.tofp(st, x) for x in a])
    return g


def fm(names, intrs=()):
    def d(f):
        g = f1(f)
        for n in names:
            MODELS[n] = g
        for n in intrs:
            INTR.append((n, g))
        return f
    return d


@fm(("fabs", "fabsf"), ("llvm.fabs",))
def _(ex, st, x):
    return xabs(x)


def perfect(r):
    if isz(r) or r < 0:
        return None
    from math import isqrt
    n, d = isqrt(r.numerator), isqrt(r.denominator)
    if n * n == r.numerator and d * d == r.denominator:
        return Fraction(n, d)
    return None


def rsqrt(ex, st, r):
    p = perfect(r)
    if p is not None:
        return p
    t = SQRT(zr(r))
    st.fact(t >= 0)
    st.fact(z3.Implies(zr(r) >= 0, t * t == zr(r)))
    return t


@fm(("sqrt", "sqrtf"), ("llvm.sqrt",))
def _(ex, st, x):
    neg = band(bnot(x.nan), rlt(x.r, 0))
    if neg is not False and isz(neg) and (ex.sign(x.r)[0] or ex.provable(st, z3.Not(neg))):
        neg = False
    return XR(rsqrt(ex, st, x.r), bor(x.nan, neg), x.inf)


@fm(("hypot", "hypotf"))
def _(ex, st, x, y):
    inf = bor(x.inf, y.inf)
    nan = band(bnot(inf), bor(x.nan, y.nan))
    s = radd(rmul(x.r, x.r), rmul(y.r, y.r))
    t = rsqrt(ex, st, s)
    return XR(rite(inf, Fraction(1), t), nan, inf)


def trig(ex, st, r):
    s, c = SIN(zr(r)), COS(zr(r))
    if not getattr(ex.spec, "TRIGFACTS", True):
        return s, c
    st.fact(s * s + c * c == 1)
    st.fact(s <= 1)
    st.fact(s >= -1)
    st.fact(c <= 1)
    st.fact(c >= -1)
    return s, c


@fm(("sin", "sinf"), ("llvm.sin",))
def _(ex, st, x):
    if not isz(x.r) and x.r == 0:
        return XR(Fraction(0), x.nan, False)
    s, c = trig(ex, st, x.r)
    return XR(s, bor(x.nan, x.inf), False)


@fm(("cos", "cosf"), ("llvm.cos",))
def _(ex, st, x):
    if not isz(x.r) and x.r == 0:
        return XR(Fraction(1), x.nan, False)
    s, c = trig(ex, st, x.r)
    return XR(c, bor(x.nan, x.inf), False)


PI = Fraction(3.141592653589793)


@fm(("atan2", "atan2f"))
def _(ex, st, y, x):
    t = ATAN2(zr(y.r), zr(x.r))
    st.fact(t <= zr(PI))
    st.fact(t >= zr(-PI))
    st.fact(z3.Implies(zr(y.r) > 0, t >= 0))
    st.fact(z3.Implies(zr(y.r) < 0, t <= 0))
    st.fact(z3.Implies(z3.And(zr(y.r) == 0, zr(x.r) > 0), t == 0))
    # polar form: (x, y) = r (cos t, sin t)
    s, c = trig(ex, st, t)
    r = rsqrt(ex, st, radd(rmul(x.r, x.r), rmul(y.r, y.r)))
    st.fact(zr(x.r) == r * c)
    st.fact(zr(y.r) == r * s)
    return XR(t, bor(x.nan, y.nan), False)


@fm(("exp", "expf"), ("llvm.exp.",))
def _(ex, st, x):
    t = EXPF(zr(x.r))
    st.fact(t > 0)
    st.fact(z3.Implies(zr(x.r) == 0, t == 1))
    st.fact(z3.Implies(zr(x.r) < 0, t < 1))
    st.fact(z3.Implies(zr(x.r) > 0, t > 1))
    st.fact(t >= 1 + zr(x.r))
    ex.monos.setdefault("exp", []).append(x.r)
    for o in ex.monos["exp"][:-1][-6:]:
        st.fact((zr(o) <= zr(x.r)) == (EXPF(zr(o)) <= t))
    return XR(rite(band(x.inf, rlt(x.r, 0)), Fraction(0), t), x.nan, band(x.inf, rlt(0, x.r)))


@fm(("log", "logf"), ("llvm.log.",))
def _(ex, st, x):
    t = LOGF(zr(x.r))
    neg = rlt(x.r, 0)
    z = req(x.r, 0)
    st.fact(z3.Implies(zr(x.r) == 1, t == 0))
    st.fact(z3.Implies(z3.And(zr(x.r) > 0, zr(x.r) < 1), t < 0))
    st.fact(z3.Implies(zr(x.r) > 1, t > 0))
    return XR(rite(z, Fraction(-1), t), bor(x.nan, neg), bor(x.inf, z))


@fm(("floor", "floorf"), ("llvm.floor",))
def _(ex, st, x):
    return XR(rite(x.inf, x.r, toreal(rfloor(x.r))) if x.inf is not False else toreal(rfloor(x.r)), x.nan, x.inf)


@fm(("ceil", "ceilf"), ("llvm.ceil",))
def _(ex, st, x):
    c = toreal(ineg(rfloor(-x.r if isz(x.r) else -x.r)))
    return XR(rite(x.inf, x.r, c) if x.inf is not False else c, x.nan, x.inf)


@fm(("trunc", "truncf"), ("llvm.trunc",))
def _(ex, st, x):
    c = toreal(ex.rtrunc(x.r))
    return XR(rite(x.inf, x.r, c) if x.inf is not False else c, x.nan, x.inf)


@fm(("round", "roundf"), ("llvm.round.",))
def _(ex, st, x):
    c = toreal(ex.rround(x.r))
    return XR(rite(x.inf, x.r, c) if x.inf is not False else c, x.nan, x.inf)


@fm(("copysign", "copysignf"), ("llvm.copysign",))
def _(ex, st, x, y):
    m = xabs(x)
    ex.assumed.add("copysign: sign of -0.0 ignored")
    return XR(rite(rlt(y.r, 0), rneg(m.r) if isz(m.r) else -m.r, m.r), x.nan, x.inf)


@fm(("fmod", "fmodf"))
def _(ex, st, x, y):
    if not (y.plain()):
        raise Unsupported("fmod by non-finite")
    bz = ex.mayzero(st, y.r)
    if bz is True:
        return XR(Fraction(0), True, False)
    q = toreal(ex.rtrunc(rdiv(x.r, y.r)))
    r = rsub(x.r, rmul(q, y.r))
    return XR(r, bor(x.nan, x.inf, bz), False)


@fm(("remainder", "remainderf"))
def _(ex, st, x, y):
    if not y.plain() or isz(y.r) and ex.mayzero(st, y.r) is not False:
        raise Unsupported("remainder by a value that is not a nonzero number")
    if not isz(y.r) and y.r == 0:
        return XR(Fraction(0), True, False)
    n = z3.Int(st.uniq("remainder"))
    r = rsub(x.r, rmul(y.r, z3.ToReal(n)))
    h = rmul(y.r, Fraction(1, 2))
    h = rite(rlt(h, 0), rneg(h) if isz(h) else -h, h)
    st.fact(zb(rle(rneg(h) if isz(h) else -h, r)))
    st.fact(zb(rle(r, h)))
    st.fact(z3.Implies(zb(bor(req(r, h), req(r, rneg(h) if isz(h) else -h))), n % 2 == 0))
    return XR(r, bor(x.nan, x.inf), False)


@fm(("fmin", "fminf"), ("llvm.minnum",))
def _(ex, st, x, y):
    m = xite(xlt(y, x), y, x)
    return xite(x.nan, y, xite(y.nan, x, m)) if not (x.nan is False and y.nan is False) else m


@fm(("fmax", "fmaxf"), ("llvm.maxnum",))
def _(ex, st, x, y):
    m = xite(xlt(x, y), y, x)
    return xite(x.nan, y, xite(y.nan, x, m)) if not (x.nan is False and y.nan is False) else m


@fm((), ("llvm.fmuladd", "llvm.fma"))
def _(ex, st, a, b, c):
    return xadd(xmul(a, b), c)


@fm(("pow", "powf"), ("llvm.pow.",))
def _(ex, st, x, y):
    if not isz(y.r) and y.plain() and y.r.denominator == 1 and 0 <= y.r <= 8:
        r = XR(Fraction(1))
        for _ in range(int(y.r)):
            r = xmul(r, x)
        return r
    if not isz(y.r) and y.plain() and y.r == Fraction(1, 2):
        return XR(rsqrt(ex, st, x.r), bor(x.nan, rlt(x.r, 0)), x.inf)
    if not (x.plain() and y.plain()):
        raise Unsupported("pow of non-finite")
    t = POWF(zr(x.r), zr(y.r))
    st.fact(z3.Implies(zr(x.r) > 0, t > 0))
    return XR(t)


@intr("llvm.powi")
def _(ex, st, I, a):
    r = XR(Fraction(1))
    if isz(a[1]) or not 0 <= a[1] <= 8:
        raise Unsupported("powi")
    for _ in range(a[1]):
        r = xmul(r, ex.tofp(st, a[0]))
    return r


@model("lround", "lroundf", "llround", "llroundf")
def _(ex, st, I, a):
    return ex.f2i(st, a[0], 64, "round", "lround")


@intr("llvm.lround", "llvm.llround")
def _(ex, st, I, a):
    return ex.f2i(st, a[0], 64, "round", "lround")


@model("lrint", "lrintf")
def _(ex, st, I, a):
    raise Unsupported("lrint")


@intr("llvm.is.fpclass")
def _(ex, st, I, a):
    x = ex.tofp(st, a[0])
    m = a[1]
    cs = []
    if m & 3 == 3:
        cs.append(x.nan)
    elif m & 3:
        raise Unsupported("fpclass snan")
    inf = m & 0x204
    if inf == 0x204:
        cs.append(band(x.inf, bnot(x.nan)))
    elif inf == 0x200:
        cs.append(band(x.inf, bnot(x.nan), rlt(0, x.r)))
    elif inf == 4:
        cs.append(band(x.inf, bnot(x.nan), rlt(x.r, 0)))
    fin = m & 0x1F8
    if fin == 0x1F8:
        cs.append(band(bnot(x.inf), bnot(x.nan)))
    elif fin:
        raise Unsupported("fpclass %x" % m)
    return bor(*cs) if cs else False


@model("__fpclassifyf", "__fpclassify")
def _(ex, st, I, a):
    raise Unsupported("fpclassify")
