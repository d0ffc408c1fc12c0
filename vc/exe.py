"""Symbolic executor / VC generator over LLVM IR with cut-point loop invariants."""
import re
import sys
import time
from fractions import Fraction
import os
import z3
import nla
from dom import *
import ir
from ir import F32, F64, PTR, tint

sys.setrecursionlimit(20000)


class Arr:
    """functional array, key tuple -> value, represented as an update chain over an uninterpreted base"""
    __slots__ = ("base", "kind", "ops", "rng", "const")

    def __init__(self, base, kind, ops=None, rng=None, const=None):
        self.base, self.kind, self.ops, self.rng, self.const = base, kind, ops, rng, const

    def store(self, idx, v):
        return Arr(self.base, self.kind, (self.ops, idx, v), self.rng, self.const)


class Region:
    __slots__ = ("base", "stride", "count", "fields", "name", "multi")

    def __init__(self, base, stride, count, name, multi=0):
        self.base, self.stride, self.count, self.name, self.multi = base, stride, count, name, multi
        self.fields = {}

    def clone(self):
        r = Region(self.base, self.stride, self.count, self.name, self.multi)
        r.fields = dict(self.fields)
        return r


class Obj:
    __slots__ = ("name", "size", "cells", "regions", "freed", "ty", "kind", "elty", "init", "const", "link")

    def __init__(self, name, size, kind, ty=None, init="undef"):
        self.name, self.size, self.kind, self.ty, self.init = name, size, kind, ty, init
        self.cells = {}
        self.regions = {}
        self.freed = False
        self.elty = None
        self.const = False
        self.link = None        # (object, offset, scale): the size is scale times the element count stored there

    def clone(self):
        o = Obj(self.name, self.size, self.kind, self.ty, self.init)
        o.link = self.link
        o.cells = dict(self.cells)
        o.regions = {k: r.clone() for k, r in self.regions.items()}
        o.freed, o.elty, o.const = self.freed, self.elty, self.const
        return o


class Frame:
    __slots__ = ("fn", "blk", "ip", "regs", "dst", "allocas", "site", "retcb")

    def __init__(self, fn, site, dst):
        self.fn, self.site, self.dst = fn, site, dst
        self.blk, self.ip, self.regs = fn.order[0], 0, {}
        self.allocas = []
        self.retcb = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.site, f.dst, f.blk, f.ip = self.fn, self.site, self.dst, self.blk, self.ip
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.retcb = self.retcb
        return f


DRAWN = set()

# name of a drawn symbol: base~number:part (loop variables: L:key~number:part)
BASE = re.compile(r"((?:L:)?[^~:]*)(?:~(\d+))?(?::.*)?$", re.S)


class Act:
    """activation of a loop on a path"""
    __slots__ = ("key", "hdr", "depth", "mode", "n", "k", "phi0", "cell0", "phih", "mem_head", "pc_len", "regmods",
                 "ctl", "hpc", "old_reg", "uid", "symx", "cnt0", "checked", "assumed")

    def clone(self):
        a = Act.__new__(Act)
        for s in Act.__slots__:
            if hasattr(self, s):
                setattr(a, s, getattr(self, s))
        return a


class LoopInfo:
    def __init__(self, key):
        self.key = key
        self.mode = "unroll"
        self.mod_cells = {}     # (objname, off) -> nbytes
        self.mod_regs = set()   # (objname, base)
        self.steps = {}         # var -> int / expr / None
        self.dead = set()
        self.alive = {}
        self.guards = {}
        self.hist = {}
        self.newhist = {}
        self.loc = None
        self.visits = 0
        self.cmp = {}
        self.stepb = {}


class State:
    def __init__(self):
        self.pc = []
        self.facts = set()
        self.mem = {}
        self.own = set()
        self.frames = []
        self.loops = []
        self.cnt = {}
        self.ghost = {}
        self.watch = []
        self.fills = []
        self.hints = []
        self.skolem = {}
        self.ghost = {}
        self.nondet = []
        self.case = ""
        self.trail = []
        self.globals_init = set()
        self.g = {}

    def fork(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.facts = set(self.facts)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.frames = [f.clone() for f in self.frames]
        s.loops = [a.clone() for a in self.loops]
        s.cnt = dict(self.cnt)
        s.ghost = dict(self.ghost)
        s.watch = list(self.watch)
        s.fills = list(self.fills)
        s.hints = list(self.hints)
        s.skolem = dict(self.skolem)
        s.ghost = dict(self.ghost)
        s.nondet = list(self.nondet)
        s.case = self.case
        s.trail = list(self.trail)
        s.globals_init = set(self.globals_init)
        s.g = dict(self.g)
        return s

    def fact(self, t):
        if t is True:
            return
        if t is False:
            t = z3.BoolVal(False)
        i = t.get_id()
        if i in self.facts:
            return
        self.facts.add(i)
        self.pc.append(t)

    def uniq(self, n):
        DRAWN.add(n)
        c = self.cnt.get(n, 0)
        self.cnt[n] = c + 1
        return n if c == 0 else "%s~%d" % (n, c)


class PathEnd(Exception):
    if os.environ.get("VC_ENDS"):
        def __init__(self):
            import traceback
            print("PATHEND", traceback.format_stack(limit=4)[:-1], file=__import__("sys").stderr)


class Oblig:
    __slots__ = ("label", "kind", "pc", "cond", "nondet", "loc", "trail", "st")

    def __init__(self, label, kind, pc, cond, nondet, loc, trail):
        self.label, self.kind, self.pc, self.cond, self.nondet, self.loc, self.trail = \
            label, kind, pc, cond, nondet, loc, trail


SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
ATAN2 = z3.Function("atan2", z3.RealSort(), z3.RealSort(), z3.RealSort())
EXPF = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOGF = z3.Function("log", z3.RealSort(), z3.RealSort())
POWF = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
SDIV = z3.Function("tdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
BAND = z3.Function("bvand", z3.IntSort(), z3.IntSort(), z3.IntSort())
BOR = z3.Function("bvor", z3.IntSort(), z3.IntSort(), z3.IntSort())
BXOR = z3.Function("bvxor", z3.IntSort(), z3.IntSort(), z3.IntSort())


class Exec:
    def __init__(self, mod, spec=None, log=None, feas_ms=1500, cand_ms=6000):
        self.m = mod
        self.spec = spec
        self.loops = {}
        self.changed = False
        self.obligs = []
        self.ntriv = 0
        self.covers = {}
        self.log = log or (lambda *a: None)
        self.feas_ms, self.cand_ms = feas_ms, cand_ms
        self.qn = 0
        self.qt = 0.0
        self.rngs = {}
        self.rcache = {}
        self.keep = []
        self.dem = {}
        self.fns_used = {}
        self.contracts_used = {}
        self.models_used = {}
        self.exctypes = {}
        self.zerocost = {}
        self.signs = {}
        self.rlo = {}
        self.assumed = set()
        self.work = []
        self.paths = 0
        self.feasible_ends = 0
        self.maxpaths = 60000
        self.deadline = None
        self.noovf = False
        self.dropped = []
        self.uof = {}
        self.joins = {}
        self.joining = getattr(spec, 'JOIN', True)
        self.forks = {}
        self.inhint = False
        self.pdec = {}
        self.verbose = bool(os.environ.get('VC_DEBUG'))
        self.fast = False
        self.bydem = None
        self.labels = {}
        self.monos = {}
        self.templates = list(getattr(spec, "TEMPLATES", []))
        for f in mod.fns.values():
            ir.analyze(f)
        import models
        self.models = models.MODELS
        self.rxmodels = models.RX
        self.contracts = list(getattr(spec, "CONTRACTS", []) or [])
        self.modelmod = models

    # ------------------------------------------------------------ solver
    def check(self, pc, extra, ms, exact=True):
        """sat/unsat/unknown of And(pc, extra)"""
        self.qn += 1
        t = time.time()
        s = z3.SimpleSolver()
        ab = None
        if any(map(nla.nonlinear, pc)) or any(map(nla.nonlinear, extra)):
            s.set("timeout", 60)
            sadd(s, pc)
            sadd(s, extra)
            r = s.check()
            if r != z3.unknown:
                self.qt += time.time() - t
                self._last = s
                return r
            s = z3.SimpleSolver()
            # unsat of the linear abstraction is unsat
            ab = nla.abstract(pc, z3.And(*extra))
        if ab is not None:
            s.set("timeout", ms)
            sadd(s, ab)
            r = s.check()
            if r != z3.unsat and exact:
                s = z3.SimpleSolver()
                s.set("timeout", min(ms, 300))
                ab = None
        else:
            s.set("timeout", ms)
        if ab is None:
            sadd(s, pc)
            sadd(s, extra)
            r = s.check()
        self.qt += time.time() - t
        self._last = s
        if time.time() - t > 0.4 and self.verbose:
            self.log("slow query %.1fs %s ab %s: %s" % (time.time() - t, r, ab is not None, str(extra[0].decl()) if isz(extra[0]) else ""))
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        return r

    def feasible(self, st, c):
        if not isz(c):
            return bool(c)
        # treating an infeasible path as feasible is sound: its obligations are discharged with the exact path condition
        return self.check(st.pc, [c], self.feas_ms, exact=False) != z3.unsat

    def provable(self, st, c, ms=None):
        if not isz(c):
            return bool(c)
        return self.check(st.pc, [z3.Not(c)], ms or self.feas_ms) == z3.unsat

    # ------------------------------------------------------------ ranges
    def setrng(self, t, lo, hi):
        i = t.get_id()
        self.keep.append(t)
        o = self.rngs.get(i)
        if o:
            lo = max(lo, o[0]) if lo is not None and o[0] is not None else (lo if lo is not None else o[0])
            hi = min(hi, o[1]) if hi is not None and o[1] is not None else (hi if hi is not None else o[1])
        self.rngs[i] = (lo, hi)

    def rng(self, t):
        if not isz(t):
            return (t, t)
        i = t.get_id()
        r = self.rcache.get(i)
        if r is not None:
            return r
        r = self._rng(t)
        self.keep.append(t)
        self.rcache[i] = r
        return r

    def _rng(self, t):
        i = t.get_id()
        if i in self.rngs:
            return self.rngs[i]
        if z3.is_int_value(t):
            v = t.as_long()
            return (v, v)
        k = t.decl().kind()
        N = (None, None)
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in ch:
                a, b = self.rng(c)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        if k == z3.Z3_OP_SUB:
            lo, hi = self.rng(ch[0])
            for c in ch[1:]:
                a, b = self.rng(c)
                lo = None if lo is None or b is None else lo - b
                hi = None if hi is None or a is None else hi - a
            return (lo, hi)
        if k == z3.Z3_OP_UMINUS:
            a, b = self.rng(ch[0])
            return (None if b is None else -b, None if a is None else -a)
        if k == z3.Z3_OP_MUL:
            lo, hi = self.rng(ch[0])
            for c in ch[1:]:
                a, b = self.rng(c)
                if None in (lo, hi, a, b):
                    if lo is not None and lo >= 0 and a is not None and a >= 0:
                        lo, hi = lo * a, (hi * b if hi is not None and b is not None else None)
                        continue
                    return N
                ps = (lo * a, lo * b, hi * a, hi * b)
                lo, hi = min(ps), max(ps)
            return (lo, hi)
        if k == z3.Z3_OP_ITE:
            a, b = self.rng(ch[1])
            c, d = self.rng(ch[2])
            return (None if a is None or c is None else min(a, c), None if b is None or d is None else max(b, d))
        if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]):
            n = ch[1].as_long()
            a, b = self.rng(ch[0])
            if a is not None and b is not None and 0 <= a and b < n:
                return (a, b)
            return (0, n - 1)
        if k == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]):
            n = ch[1].as_long()
            a, b = self.rng(ch[0])
            return (None if a is None else a // n, None if b is None else b // n)
        return N

    # ------------------------------------------------------------ obligations
    def here(self, st):
        fr = st.frames[-1] if st.frames else None
        if fr is None:
            return "?"
        ins = fr.fn.blocks[fr.blk]
        ip = min(max(fr.ip - 1, 0), len(ins) - 1)
        for j in range(ip, -1, -1):
            if ins[j].dbg is not None:
                f, l = self.m.loc(ins[j].dbg)
                return "%s:%d" % (f, l)
        return fr.fn.name

    def oblig(self, st, cond, label, kind="prove"):
        if not isz(cond):
            if cond:
                self.ntriv += 1
                return
            cond = z3.BoolVal(False)
        if self.inhint:
            return
        self.obligs.append(Oblig(label, kind, tuple(st.pc), cond, list(st.nondet), self.here(st), tuple(st.trail[-40:])))
        st.fact(cond)

    # ------------------------------------------------------------ integer helpers
    def inrange(self, t, lo, hi):
        a, b = self.rng(t)
        return a is not None and b is not None and lo <= a and b <= hi

    def fit(self, st, t, w, flags, what):
        """wrap an exact result into canonical signed w-bit"""
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if self.fast:
            return t
        if not isz(t):
            r = (t - lo) % (1 << w) + lo
            if r != t and "nsw" in flags:
                self.oblig(st, False, "signed overflow in %s" % what, "overflow")
            return r
        if self.inrange(t, lo, hi):
            return t
        c = z3.And(t >= lo, t <= hi)
        if "nsw" in flags:
            if not self.noovf:
                self.oblig(st, c, "no signed overflow (i%d %s)" % (w, what), "overflow")
            return t
        if self.provable(st, c):
            st.fact(c)
            return t
        r = (t - lo) % (1 << w) + lo
        self.setrng(r, lo, hi)
        return r

    def u(self, st, t, w):
        """unsigned reading of a signed canonical value"""
        if not isz(t):
            return t % (1 << w)
        a, b = self.rng(t)
        if a is not None and a >= 0 or self.fast:
            return t
        if self.provable(st, t >= 0):
            return t
        r = z3.If(t < 0, t + (1 << w), t)
        self.setrng(r, 0, (1 << w) - 1)
        self.uof[(r.get_id(), w)] = t
        return r

    def from_u(self, st, t, w):
        """unsigned exact [0,2^w) -> canonical signed"""
        half = 1 << (w - 1)
        if not isz(t):
            return t - (1 << w) if t >= half else t
        o = self.uof.get((t.get_id(), w))
        if o is not None:
            return o
        a, b = self.rng(t)
        if b is not None and b < half or self.fast:
            return t
        if self.provable(st, t < half):
            return t
        return z3.If(t >= half, t - (1 << w), t)

    def fresh(self, st, name, ty, lo=None, hi=None):
        n = st.uniq(name)
        if ty.k == "int":
            if ty.n == 1:
                return z3.Bool(n)
            v = z3.Int(n)
            l2, h2 = -(1 << (ty.n - 1)), (1 << (ty.n - 1)) - 1
            lo = l2 if lo is None else max(lo, l2)
            hi = h2 if hi is None else min(hi, h2)
            self.setrng(v, lo, hi)
            st.fact(v >= lo)
            st.fact(v <= hi)
            return v
        if ty.k in ("f32", "f64", "f80"):
            return XR(z3.Real(n))
        if ty.k == "vec":
            return Vec([self.fresh(st, n, ty.el) for _ in range(ty.n)])
        raise Unsupported("fresh value of type %r (%s)" % (ty, name))

    def tdiv(self, st, a, b):
        """C truncated division, b != 0 assumed"""
        if not isz(a) and not isz(b):
            if b == 0:
                return 0
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if not isz(b):
            n = abs(b)
            if n == 0:
                return 0
            lo, hi = self.rng(a)
            if lo is not None and lo >= 0:
                q = a / n
            elif hi is not None and hi <= 0:
                q = -((-a) / n)
            else:
                q = z3.If(a >= 0, a / n, -((-a) / n))
                if lo is not None and hi is not None:
                    self.setrng(q, -(-lo // n), hi // n)
            return q if b > 0 else -q
        a, b = zi(a), zi(b)
        q = SDIV(a, b)
        r = a - b * q
        st.fact(z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r < b, q >= 0, q <= a)))
        st.fact(z3.Implies(z3.And(a < 0, b > 0), z3.And(r <= 0, r > -b, q <= 0, q >= a)))
        st.fact(z3.Implies(z3.And(a >= 0, b < 0), z3.And(r >= 0, r < -b, q <= 0)))
        st.fact(z3.Implies(z3.And(a < 0, b < 0), z3.And(r <= 0, r > b, q >= 0)))
        return q

    # ------------------------------------------------------------ memory
    def obj(self, st, name):
        o = st.mem.get(name)
        if o is None:
            if name.startswith("@"):
                self.init_global(st, name)
                return st.mem[name]
            raise Unsupported("unknown object %s" % name)
        return o

    def wobj(self, st, name):
        o = self.obj(st, name)
        if name not in st.own:
            o = o.clone()
            st.mem[name] = o
            st.own.add(name)
        return o

    def newobj(self, st, name, size, kind, ty=None, init="undef"):
        n = st.uniq(name)
        st.mem[n] = Obj(n, size, kind, ty, init)
        st.own.add(n)
        return n

    def init_global(self, st, name):
        g = self.m.globals.get(name[1:])
        if g is None:
            raise Unsupported("unknown global %s" % name)
        if g[0] == "alias":
            raise Unsupported("alias global %s" % name)
        _, ty, init, const = g
        if ty is None:
            raise Unsupported("unparsed global %s" % name)
        try:
            size = self.m.size(ty)
        except ir.IRError:
            size = None
        o = Obj(name, size, "global", ty, "havoc")
        o.const = const
        st.mem[name] = o
        st.own.add(name)
        if init is not None and (const or init.k not in ("zero", "undef")):
            self.put_init(st, o, 0, ty, init)
        elif init is not None and init.k == "zero" and name.startswith("@_ZGV"):
            o.init = "zero"

    def put_init(self, st, o, off, ty, v):
        if v.k == "zero":
            if self.m.size(ty) > 65536:
                o.init = "zero"
                return
            for lo, lt in self.m.leaves(ty, off):
                o.cells[lo] = (self.m.size(lt), self.zero(lt))
            return
        if v.k == "undef":
            return
        if v.k == "agg":
            if ty.k == "struct":
                for i, e in enumerate(v.v):
                    self.put_init(st, o, off + self.m.field(ty, i), ty.el[i], e)
            else:
                s = self.m.size(ty.el)
                for i, e in enumerate(v.v):
                    self.put_init(st, o, off + i * s, ty.el, e)
            return
        if v.k == "str":
            for i, b in enumerate(v.v):
                o.cells[off + i] = (1, b - 256 if b > 127 else b)
            return
        o.cells[off] = (self.m.size(ty), self.ev(st, v))

    def zero(self, ty):
        if ty.k == "int":
            return False if ty.n == 1 else 0
        if ty.k in ("f32", "f64", "f80"):
            return XR(Fraction(0))
        if ty.k == "ptr":
            return NULL
        if ty.k in ("vec", "arr"):
            return Vec([self.zero(ty.el)] * ty.n) if ty.k == "vec" else Agg([self.zero(ty.el)] * ty.n)
        if ty.k == "struct":
            return Agg([self.zero(e) for e in ty.el])
        raise Unsupported("zero %r" % ty)

    def kindof(self, ty):
        if ty.k == "int":
            return ("i", max(8, ty.n))
        if ty.k in ("f32", "f64", "f80"):
            return (ty.k, 0)
        if ty.k == "ptr":
            return ("ptr", 0)
        raise Unsupported("array element type %r" % ty)

    def sel(self, st, arr, idx):
        """select from Arr at key tuple idx"""
        conds = []
        op = arr.ops
        while op is not None:
            nxt, i, v = op
            if callable(i):
                c = i(idx)
            else:
                c = band(*[ieq(a, b) for a, b in zip(i, idx)])
            if c is True:
                base = v(idx) if callable(v) else v
                break
            if c is not False:
                conds.append((c, v(idx) if callable(v) else v))
            op = nxt
        else:
            base = self.base(st, arr, idx)
        for c, v in reversed(conds):
            base = self.merge(c, v, base)
        return base

    def merge(self, c, a, b):
        if isinstance(a, XR):
            return xite(c, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if veq(a, b):
                return a
            raise Unsupported("merge of pointers")
        if isinstance(a, bool) or z3.is_bool(a):
            return bite(c, a, b)
        return iite(c, a, b)

    def base(self, st, arr, idx):
        if arr.const is not None:
            return arr.const
        k, w = arr.kind
        args = [zi(x) for x in idx]
        dom = [z3.IntSort()] * len(args)
        if k == "i":
            t = z3.Function(arr.base, *dom, z3.IntSort())(*args)
            lo, hi = arr.rng or (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if isz(lo) or isz(hi):
                # bounds the contract computes: only when there is a value between them
                st.fact(z3.Implies(zi(lo) <= zi(hi), z3.And(t >= zi(lo), t <= zi(hi))))
                lo = self.rng(lo)[0] if isz(lo) else lo
                hi = self.rng(hi)[1] if isz(hi) else hi
                lo = -(1 << (w - 1)) if lo is None else lo
                hi = (1 << (w - 1)) - 1 if hi is None else hi
                if lo > hi:
                    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            self.setrng(t, lo, hi)
            st.fact(t >= lo)
            st.fact(t <= hi)
            return t
        if k in ("f32", "f64"):
            t = z3.Function(arr.base, *dom, z3.RealSort())(*args)
            if arr.rng:
                lo, hi = arr.rng
                if lo is not None:
                    st.fact(t >= zr(Fraction(lo)))
                if hi is not None:
                    st.fact(t <= zr(Fraction(hi)))
            return XR(t)
        raise Unsupported("symbolic array of %s" % k)

    def region_for(self, st, o, off, ty, hint):
        """find/create region handling symbolic offset; returns (base, idx, fieldoff) or None"""
        if isinstance(off, tuple):
            b = 0
            if b not in o.regions:
                raise Unsupported("keyed access to unkeyed object %s" % o.name)
            return (b, off[2:], off[1])
        d, c = lin(off)
        for b, r in o.regions.items():
            if r.multi:
                raise Unsupported("raw access to abstract map %s" % o.name)
            S = r.stride
            if not d and r.count is not None and not isz(r.count):
                if not (b <= c < b + S * r.count):
                    continue
            if not d and hint is None and len(o.regions) > 1 and not isz(r.count) and r.count is None:
                continue
            if d and hint is not None and hint[0] != b:
                continue
            if any(m % S for _, m in d.values()):
                # e.g. stride guessed too big
                raise Unsupported("offset %s not a multiple of stride %d in %s" % (off, S, o.name))
            f = (c - b) % S
            idx = unlin({i: (a, m // S) for i, (a, m) in d.items()}, (c - b) // S)
            return (b, (idx,), f)
        if not d:
            return None
        # create
        from math import gcd
        if hint is not None:
            b, S, n = hint
        else:
            g = 0
            for _, m in d.values():
                g = gcd(g, abs(m))
            b, S, n = 0, g, None
            es = self.m.size(o.elty) if o.elty is not None else 0
            if es and g % es == 0:
                S = es
            elif o.size is not None:
                if isz(o.size):
                    ds, cs = lin(o.size)
                    gs = 0
                    for _, m in ds.values():
                        gs = gcd(gs, abs(m))
                    if gs and g % gs == 0 and gs >= self.m.size(ty) if ty is not None else gs:
                        S = gs if gs else S
        w = self.wobj(st, o.name)
        r = Region(b, S, n, "%s[%d]" % (o.name, b))
        w.regions[b] = r
        # migrate concrete cells
        for co in sorted(list(w.cells)):
            if n is not None and not isz(n) and not (b <= co < b + S * n):
                continue
            nb, v = w.cells.pop(co)
            f = (co - b) % S
            self.region_put(st, r, f, ((co - b) // S,), nb, v)
        if any(m % S for _, m in d.values()):
            raise Unsupported("offset %s vs stride %d in %s" % (off, S, o.name))
        f = (c - b) % S
        idx = unlin({i: (a, m // S) for i, (a, m) in d.items()}, (c - b) // S)
        return (b, (idx,), f)

    def kind_of_val(self, v, nb):
        if isinstance(v, XR):
            return ("f32" if nb == 4 else "f64", 0)
        if isinstance(v, Ptr):
            return ("ptr", 0)
        return ("i", 8 * nb)

    def region_arr(self, st, r, f, nb, kind, o=None):
        e = r.fields.get(f)
        if e is None:
            for g, (gn, _) in r.fields.items():
                if g < f + nb and f < g + gn:
                    raise Unsupported("overlapping fields in region %s" % r.name)
            const = None
            if o is not None and o.init == "zero":
                const = XR(Fraction(0)) if kind[0][0] == "f" else (NULL if kind[0] == "ptr" else 0)
            a = Arr("%s.%d" % (r.name, f), kind, const=const)
            r.fields[f] = (nb, a)
            return a
        if e[0] != nb or (e[1].kind != kind):
            raise Unsupported("type pun in region %s field %d: %s vs %s" % (r.name, f, e[1].kind, kind))
        return e[1]

    def region_put(self, st, r, f, idx, nb, v):
        if isinstance(v, Cat):
            o = f
            for n, x in v.p:
                self.region_put(st, r, o, idx, n, x)
                o += n
            return
        if v is UNDEF:
            return
        if isinstance(v, Vec):
            n = nb // len(v.e)
            for j, x in enumerate(v.e):
                self.region_put(st, r, f + j * n, idx, n, x)
            return
        if isinstance(v, bool) or z3.is_bool(v):
            v = iite(v, 1, 0)
        # vector / struct store wider than the stride is split over elements
        q, f2 = divmod(f, r.stride)
        if q and len(idx) == 1:
            idx = (iadd(idx[0], q),)
            f = f2
        a = self.region_arr(st, r, f, nb, self.kind_of_val(v, nb))
        r.fields[f] = (nb, a.store(idx, v))

    def bounds(self, st, o, off, n, what):
        if o.freed:
            self.oblig(st, False, "%s of freed object" % what, "memory")
            raise PathEnd()
        size = o.size
        if o.link is not None and o.link[0] in st.mem:
            size = imul(self.toint(st, self.load(st, Ptr(o.link[0], o.link[1]), tint(64), False)), o.link[2])
        if isinstance(off, tuple) or size is None:
            return
        c = band(ile(0, off), ile(iadd(off, n), size))
        if c is False:
            self.oblig(st, False, "%s out of bounds of %s (offset %s size %s)" % (what, o.name, off, size), "memory")
            raise PathEnd()
        if c is not True:
            if isz(c):
                c = z3.simplify(c)
                if z3.is_true(c):
                    self.ntriv += 1
                    return
            self.oblig(st, c, "%s in bounds" % what, "memory")
        else:
            self.ntriv += 1

    def chk_null(self, st, p, what):
        if not isinstance(p, Ptr):
            if isinstance(p, (Cat,)):
                raise Unsupported("pointer pun")
            if p is UNDEF:
                raise Unsupported("undef pointer %s at %s" % (what, self.here(st)))
            raise Unsupported("non-pointer dereference %r" % (p,))
        if p.obj is None:
            self.oblig(st, False, "null pointer %s" % what, "memory")
            raise PathEnd()
        if isinstance(p.obj, tuple):
            raise Unsupported("dereference of function pointer")

    def load(self, st, p, ty, chk=True):
        self.chk_null(st, p, "load")
        o = self.obj(st, p.obj)
        if o.kind == "poison":
            raise Unsupported("raw access to storage hidden behind a contract (%s)" % o.name)
        if ty.k in ("struct", "arr"):
            els = []
            if ty.k == "struct":
                for i, e in enumerate(ty.el):
                    els.append(self.load(st, Ptr(p.obj, self.offadd(p.off, self.m.field(ty, i)), p.hint), e))
            else:
                s = self.m.size(ty.el)
                for i in range(ty.n):
                    els.append(self.load(st, Ptr(p.obj, self.offadd(p.off, i * s), p.hint), ty.el))
            return Agg(els)
        if ty.k == "vec":
            s = self.m.size(ty.el)
            return Vec([self.load(st, Ptr(p.obj, self.offadd(p.off, i * s), p.hint), ty.el) for i in range(ty.n)])
        n = self.m.size(ty)
        off = p.off
        if chk:
            self.bounds(st, o, off, n, "load")
        symbolic = isz(off) or isinstance(off, tuple)
        if symbolic or o.regions:
            rf = self.region_for(st, o, off, ty, p.hint)
            if rf is not None:
                o = self.obj(st, p.obj)
                b, idx, f = rf
                r = o.regions[b]
                v = self.region_get(st, p.obj, b, f, idx, n, ty)
                return self.cast_load(st, v, ty)
        v = self.cell_load(st, o, off, n, ty)
        return self.cast_load(st, v, ty)

    def region_get(self, st, oname, b, f, idx, n, ty):
        o = self.obj(st, oname)
        r = o.regions[b]
        e = r.fields.get(f)
        if e is not None and e[0] < n:
            # wider load over several fields
            parts = []
            q = f
            while q < f + n:
                e = r.fields.get(q)
                if e is None or q + e[0] > f + n:
                    raise Unsupported("wide load over region %s" % r.name)
                parts.append((e[0], self.sel(st, e[1], idx)))
                q += e[0]
            return Cat(parts)
        if e is None:
            w = self.wobj(st, oname)
            r = w.regions[b]
            a = self.region_arr(st, r, f, n, self.kindof(ty), w)
        else:
            a = e[1]
            k = self.kindof(ty)
            if e[0] != n:
                raise Unsupported("narrow load from region field %s+%d" % (r.name, f))
            if a.kind != k:
                if a.kind[0] == "ptr" or k[0] == "ptr":
                    raise Unsupported("pun pointer in region")
                return Cat([(n, self.sel(st, a, idx))])
        return self.sel(st, a, idx)

    def offadd(self, off, k):
        if isinstance(off, tuple):
            if isz(k):
                raise Unsupported("symbolic offset into keyed cell")
            return (off[0], off[1] + k) + off[2:]
        return iadd(off, k)

    def cell_load(self, st, o, off, n, ty):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # overlapping?
        parts = []
        if c is not None and c[0] > n:
            return self.subval(c[0], c[1], 0, n)
        over = [co for co, (cn, _) in o.cells.items() if co < off + n and off < co + cn]
        if not over:
            if o.init == "zero":
                return self.zero(ty)
            if ty.k == "ptr":
                if o.init == "undef":
                    return UNDEF
                raise Unsupported("unknown pointer loaded from %s+%s" % (o.name, off))
            v = self.fresh_at(st, "%s+%s:%s" % (o.name, off, "u"), ty)
            if v is not UNDEF:
                w = self.wobj(st, o.name)
                w.cells[off] = (n, v)
            return v
        over.sort()
        q = off
        for co in over:
            cn, cv = o.cells[co]
            if co > q:
                parts.append((co - q, UNDEF))
                q = co
            a = max(co, off)
            e = min(co + cn, off + n)
            parts.append((e - a, self.subval(cn, cv, a - co, e - a)))
            q = e
        if q < off + n:
            parts.append((off + n - q, UNDEF))
        return parts[0][1] if len(parts) == 1 else Cat(parts)

    def fresh_at(self, st, name, ty):
        if ty.k == "int" and ty.n == 1:
            return z3.Bool(st.uniq(name))
        return self.fresh(st, name, ty)

    def subval(self, n, v, off, k):
        """k bytes at byte offset off of an n-byte value"""
        if off == 0 and k == n:
            return v
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Cat):
            out = []
            q = 0
            for pn, pv in v.p:
                a, e = max(q, off), min(q + pn, off + k)
                if a < e:
                    out.append((e - a, self.subval(pn, pv, a - q, e - a)))
                q += pn
            return out[0][1] if len(out) == 1 else Cat(out)
        if isinstance(v, Vec):
            es = n // len(v.e)
            if off % es == 0 and k == es:
                return v.e[off // es]
        if isinstance(v, (XR, Ptr)):
            raise Unsupported("partial read of float/pointer")
        if not isinstance(v, (Vec, Agg)):
            x = v
            if isinstance(x, bool) or z3.is_bool(x):
                x = iite(x, 1, 0)
            t = idivf(x, 1 << (8 * off)) if off else x
            w = 8 * k
            t = imod(t, 1 << w)
            half = 1 << (w - 1)
            if not isz(t):
                return t - (1 << w) if t >= half else t
            r = z3.If(t >= half, t - (1 << w), t)
            self.setrng(r, -half, half - 1)
            return r
        raise Unsupported("partial read of %r" % (v,))

    def cast_load(self, st, v, ty):
        if v is UNDEF:
            return v
        if ty.k == "int":
            if ty.n == 1:
                if isinstance(v, bool) or z3.is_bool(v):
                    return v
                v = self.toint(st, v)
                return bnot(ieq(v, 0))
            if isinstance(v, bool) or z3.is_bool(v):
                return iite(v, 1, 0)
            if isinstance(v, (XR, Ptr, Vec)):
                return Cat([(self.m.size(ty), v)])
            return v
        if ty.k in ("f32", "f64"):
            if isinstance(v, Cat) and len(v.p) == 1 and isinstance(v.p[0][1], XR):
                return v.p[0][1]
            if isinstance(v, XR) or isinstance(v, Cat):
                return v
            if v == 0 and not isz(v):
                return XR(Fraction(0))
            raise Unsupported("int bits read as float")
        if ty.k == "ptr":
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Cat) and len(v.p) == 1 and isinstance(v.p[0][1], Ptr):
                return v.p[0][1]
            if not isz(v) and v == 0:
                return NULL
            raise Unsupported("non-pointer read as pointer %r" % (v,))
        return v

    def store(self, st, p, n, v, chk=True):
        self.chk_null(st, p, "store")
        o = self.obj(st, p.obj)
        if o.kind == "poison":
            raise Unsupported("raw access to storage hidden behind a contract (%s)" % o.name)
        if o.const:
            self.oblig(st, False, "store to constant", "memory")
            raise PathEnd()
        off = p.off
        if isinstance(v, Vec):
            s = n // len(v.e)
            for i, e in enumerate(v.e):
                self.store(st, Ptr(p.obj, self.offadd(off, i * s), p.hint), s, e)
            return
        if isinstance(v, Cat):
            q = 0
            for pn, pv in v.p:
                if pv is not UNDEF:
                    self.store(st, Ptr(p.obj, self.offadd(off, q), p.hint), pn, pv)
                q += pn
            return
        if chk:
            self.bounds(st, o, off, n, "store")
        symbolic = isz(off) or isinstance(off, tuple)
        if symbolic or o.regions:
            rf = self.region_for(st, o, off, None, p.hint)
            if rf is not None:
                w = self.wobj(st, p.obj)
                b, idx, f = rf
                self.region_put(st, w.regions[b], f, idx, n, v)
                return
        w = self.wobj(st, p.obj)
        # split overlapping older cells
        for co in [co for co, (cn, _) in w.cells.items() if co < off + n and off < co + cn and not (
                co >= off and co + cn <= off + n)] if not (off in w.cells and w.cells[off][0] == n) else []:
            cn, cv = w.cells.pop(co)
            if co < off:
                w.cells[co] = (off - co, self.subval(cn, cv, 0, off - co))
            if co + cn > off + n:
                w.cells[off + n] = (co + cn - off - n, self.subval(cn, cv, off + n - co, co + cn - off - n))
        if not (off in w.cells and w.cells[off][0] == n):
            for co in [co for co, (cn, _) in w.cells.items() if off <= co and co + cn <= off + n]:
                del w.cells[co]
        w.cells[off] = (n, v)

    def memcpy(self, st, d, s, n):
        if not isz(n) and n == 0:
            return
        self.chk_null(st, d, "memcpy dst")
        self.chk_null(st, s, "memcpy src")
        so, do = self.obj(st, s.obj), self.obj(st, d.obj)
        if so.kind == "poison" or do.kind == "poison":
            raise Unsupported("raw copy of storage hidden behind a contract")
        self.bounds(st, so, s.off, n, "memcpy read")
        self.bounds(st, do, d.off, n, "memcpy write")
        if not isz(n) and n <= 4096:
            ssym = isz(s.off) or isinstance(s.off, tuple) or (so.regions and self.region_for(st, so, s.off, None, s.hint) is not None)
            leaves = None
            if ssym or (isz(d.off)) or do.regions:
                leaves = self.leaves_at(st, d, n) or self.leaves_at(st, s, n)
                if leaves is None:
                    # cells of source
                    if not ssym and not isz(s.off):
                        leaves = None
                    else:
                        raise Unsupported("memcpy without layout %s -> %s at %s" % (s.obj, d.obj, self.here(st)))
            if leaves is not None:
                vals = [(o, self.m.size(t), self.load(st, Ptr(s.obj, self.offadd(s.off, o), s.hint), t, False)) for o, t in leaves]
                for o, sz, v in vals:
                    if v is not UNDEF:
                        self.store(st, Ptr(d.obj, self.offadd(d.off, o), d.hint), sz, v, False)
                return
            # concrete: copy cells
            cells = []
            for co, (cn, cv) in so.cells.items():
                if co < s.off + n and s.off < co + cn:
                    a, e = max(co, s.off), min(co + cn, s.off + n)
                    cells.append((a - s.off, e - a, self.subval(cn, cv, a - co, e - a)))
            if so.init == "zero":
                ls = self.leaves_at(st, d, n) or self.leaves_at(st, s, n)
                if ls is not None:
                    cells = [(o, self.m.size(t), self.load(st, Ptr(s.obj, s.off + o), t, False)) for o, t in ls]
            elif so.init == "havoc" or so.init == "undef":
                # materialise unknown source bytes so that both copies agree
                ls = self.leaves_at(st, s, n) or self.leaves_at(st, d, n)
                if ls is not None:
                    have = sorted((a, a + b) for a, b, _ in cells)
                    for o, t in ls:
                        sz = self.m.size(t)
                        if not any(a < o + sz and o < e for a, e in have) and t.k != "ptr":
                            if so.init == "havoc":
                                cells.append((o, sz, self.load(st, Ptr(s.obj, s.off + o), t, False)))
            w = self.wobj(st, d.obj)
            for co in [co for co, (cn, _) in w.cells.items() if co < d.off + n and d.off < co + cn]:
                cn, cv = w.cells.pop(co)
                if co < d.off:
                    w.cells[co] = (d.off - co, self.subval(cn, cv, 0, d.off - co))
                if co + cn > d.off + n:
                    w.cells[d.off + n] = (co + cn - d.off - n, self.subval(cn, cv, d.off + n - co, co + cn - d.off - n))
            for o, sz, v in cells:
                if v is not UNDEF:
                    w.cells[d.off + o] = (sz, v)
            return
        # symbolic length: whole-array copy between element arrays
        if not (not isz(s.off) and s.off == 0 and not isz(d.off) and d.off == 0):
            raise Unsupported("symbolic memcpy at non-zero offset")
        S = None
        for o in (so, do):
            if 0 in o.regions:
                S = o.regions[0].stride
        if S is None:
            from math import gcd
            dd, cc = lin(n)
            g = 0
            for _, m in dd.values():
                g = gcd(g, abs(m))
            S = g
            if S not in (1, 2, 4, 8, 12):
                raise Unsupported("symbolic memcpy stride %s" % S)
        dd, cc = lin(n)
        if cc % S or any(m % S for _, m in dd.values()):
            raise Unsupported("symbolic memcpy size not a multiple of stride")
        cnt = unlin({i: (a, m // S) for i, (a, m) in dd.items()}, cc // S)
        so = self.wobj(st, s.obj)
        do = self.wobj(st, d.obj)
        for o in (so, do):
            if 0 not in o.regions:
                if o.cells:
                    raise Unsupported("symbolic memcpy over concrete cells")
                o.regions[0] = Region(0, S, None, "%s[0]" % o.name)
        rs, rd = so.regions[0], do.regions[0]
        if not rs.fields:
            el = so.elty or do.elty
            if el is None and S in (1, 2, 4, 8):
                kinds = {f: (e[0], e[1].kind) for f, e in rd.fields.items()} or {0: (S, ("i", 8 * S))}
            elif el is not None:
                kinds = {o: (self.m.size(t), self.kindof(t)) for o, t in self.m.leaves(el)}
            else:
                kinds = {f: (e[0], e[1].kind) for f, e in rd.fields.items()}
            for f, (nb, kd) in kinds.items():
                self.region_arr(st, rs, f, nb, kd, so)
        for f, (nb, a) in list(rs.fields.items()):
            if f not in rd.fields:
                self.region_arr(st, rd, f, nb, a.kind, do)
            da = rd.fields[f][1]
            rd.fields[f] = (nb, Arr(da.base, da.kind, (da.ops, (lambda idx, cnt=cnt: band(ile(0, idx[0]), ilt(idx[0], cnt))),
                                                    (lambda idx, a=a: self.sel(st, a, idx))), da.rng, da.const))

    def leaves_at(self, st, p, n):
        o = self.obj(st, p.obj)
        ls = None
        if o.ty is not None and not isz(p.off) and not isinstance(p.off, tuple):
            try:
                ls = [(a - p.off, t) for a, t in self.m.leaves(o.ty) if p.off <= a < p.off + n]
                if ls and ls[-1][0] + self.m.size(ls[-1][1]) > n:
                    ls = None
            except ir.IRError:
                ls = None
        if ls is None and o.elty is not None and self.m.size(o.elty) >= 1:
            es = self.m.size(o.elty)
            if n % es == 0:
                ls = []
                for j in range(n // es):
                    ls += [(a + j * es, t) for a, t in self.m.leaves(o.elty)]
        if not ls and 0 in o.regions and o.regions[0].fields and n == o.regions[0].stride:
            ls = []
            for f, (nb, a) in sorted(o.regions[0].fields.items()):
                k, w = a.kind
                ls.append((f, tint(w) if k == "i" else F32 if k == "f32" else F64 if k == "f64" else PTR))
        return ls or None

    def memset(self, st, d, v, n):
        if not isz(n) and n == 0:
            return
        self.chk_null(st, d, "memset")
        o = self.obj(st, d.obj)
        if o.kind == "poison":
            raise Unsupported("raw memset of storage hidden behind a contract")
        self.bounds(st, o, d.off, n, "memset")
        if isz(v):
            if o.kind and not isz(n):
                for i in range(n):
                    self.store(st, Ptr(d.obj, self.offadd(d.off, i)), 1, v)
                return
            raise Unsupported("memset symbolic")
        if not isz(n) and n <= 65536 and not isz(d.off):
            ls = self.leaves_at(st, d, n)
            if v == 0 and ls is not None and not o.regions:
                for a, t in ls:
                    self.store(st, Ptr(d.obj, d.off + a), self.m.size(t), self.zero(t), False)
                return
            if v == 0 and not o.regions:
                w = self.wobj(st, d.obj)
                for co in [co for co, (cn, _) in w.cells.items() if co < d.off + n and d.off < co + cn]:
                    cn, cv = w.cells[co]
                    if co >= d.off and co + cn <= d.off + n:
                        del w.cells[co]
                    else:
                        raise Unsupported("memset overlap")
                q = d.off
                while q < d.off + n:
                    s = 8 if q % 8 == 0 and q + 8 <= d.off + n else 4 if q % 4 == 0 and q + 4 <= d.off + n else 1
                    w.cells[q] = (s, 0)
                    q += s
                return
            for i in range(n):
                self.store(st, Ptr(d.obj, d.off + i), 1, v if v < 128 else v - 256)
            return
        if not isz(d.off) and d.off == 0:
            S = 1
            w = self.wobj(st, d.obj)
            if 0 in w.regions:
                S = w.regions[0].stride
            else:
                el = o.elty
                S = self.m.size(el) if el is not None else 1
                w.regions[0] = Region(0, S, None, "%s[0]" % w.name)
            r = w.regions[0]
            dd, cc = lin(n)
            if cc % S or any(m % S for _, m in dd.values()):
                raise Unsupported("memset size")
            cnt = unlin({i: (a, m // S) for i, (a, m) in dd.items()}, cc // S)
            if not r.fields:
                if S == 1:
                    self.region_arr(st, r, 0, 1, ("i", 8), w)
                elif o.elty is not None and v == 0:
                    for a, t in self.m.leaves(o.elty):
                        self.region_arr(st, r, a, self.m.size(t), self.kindof(t), w)
            for f, (nb, a) in list(r.fields.items()):
                if nb != 1 and v != 0:
                    raise Unsupported("memset non-zero wide")
                val = XR(Fraction(0)) if a.kind[0][0] == "f" else NULL if a.kind[0] == "ptr" else (v if v < 128 else v - 256)
                r.fields[f] = (nb, Arr(a.base, a.kind, (a.ops, (lambda idx, cnt=cnt: band(ile(0, idx[0]), ilt(idx[0], cnt))),
                                                        (lambda idx, val=val: val)), a.rng, a.const))
            return
        raise Unsupported("memset")

    # ------------------------------------------------------------ operands
    def ev(self, st, v):
        k = v.k
        if k == "reg":
            r = st.frames[-1].regs
            if v.v not in r:
                raise Unsupported("use of undefined register %s in %s" % (v.v, st.frames[-1].fn.name))
            x = r[v.v]
            if isinstance(x, PIte):
                x = self.known(st, x)
                if isinstance(x, PIte):
                    raise Resolve(x.c)
            return x
        if k == "int":
            return v.v
        if k == "global":
            n = v.v[1:]
            g = self.m.globals.get(n)
            if g is not None:
                if g[0] == "alias":
                    return self.ev(st, g[1])
                return Ptr(v.v, 0)
            return Ptr(("fn", n), 0)
        if k == "fp":
            return xconst(v.v)
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "zero":
            return self.zero(v.ty)
        if k == "agg":
            e = [self.ev(st, x) for x in v.v]
            return Vec(e) if v.ty.k == "vec" else Agg(e)
        if k == "cexpr":
            if v.v == "gep":
                bt, ops = v.x
                return self.gep(st, bt, [self.ev(st, o) for o in ops], ops)
            if v.v in ("bitcast", "addrspacecast"):
                return self.ev(st, v.x[0])
            if v.v == "ptrtoint":
                p = self.ev(st, v.x[0])
                return Cat([(8, p)])
            if v.v == "inttoptr":
                p = self.ev(st, v.x[0])
                if isinstance(p, Cat):
                    return p.p[0][1]
                if p == 0:
                    return NULL
            raise Unsupported("constant expression %s" % v.v)
        if k == "meta":
            return None
        raise Unsupported("operand %s" % k)

    def gep(self, st, bt, vals, ops):
        p = vals[0]
        if isinstance(p, Vec):
            raise Unsupported("vector gep")
        if p is UNDEF:
            raise Unsupported("gep on undef")
        if not isinstance(p, Ptr):
            raise Unsupported("gep on %r" % (p,))
        off = p.off
        if isinstance(off, tuple):
            t = bt
            for j, i in enumerate(vals[1:]):
                if isinstance(i, Cat):
                    i = self.toint(st, i)
                if isz(i):
                    raise Unsupported("gep into keyed cell")
                if j == 0:
                    off = self.offadd(off, i * self.m.size(t))
                elif t.k == "struct":
                    off = self.offadd(off, self.m.field(t, i))
                    t = t.el[i]
                else:
                    off = self.offadd(off, i * self.m.size(t.el))
                    t = t.el
            return Ptr(p.obj, off)
        hint = p.hint
        t = bt
        for j, i in enumerate(vals[1:]):
            if isinstance(i, Cat):
                i = self.toint(st, i)
            if j == 0:
                s = self.m.size(t)
                if isz(i) or i != 0:
                    if isz(i) and t.k in ("struct", "f32", "f64", "int", "ptr") and p.obj in st.mem and st.mem[p.obj].elty is None and \
                            st.mem[p.obj].kind == "heap":
                        self.wobj(st, p.obj).elty = t
                    off = iadd(off, imul(i, s))
                continue
            if t.k == "struct":
                off = iadd(off, self.m.field(t, i))
                t = t.el[i]
            else:
                s = self.m.size(t.el)
                if isz(i) and not isz(off) and t.n > 0:
                    hint = (off, s, t.n)
                off = iadd(off, imul(i, s))
                t = t.el
        return Ptr(p.obj, off, hint)

    def toint(self, st, v, w=None):
        """value -> integer term"""
        if isinstance(v, bool) or z3.is_bool(v):
            return iite(v, 1, 0)
        if isinstance(v, Cat):
            t = 0
            sh = 0
            n = sum(a for a, _ in v.p)
            for i, (nb, x) in enumerate(v.p):
                if x is UNDEF:
                    x = self.fresh(st, "undefbits", tint(8 * nb))
                if isinstance(x, (XR, Ptr, Vec)):
                    raise Unsupported("float/pointer bits used as integer at %s: %r" % (self.here(st), v))
                x = self.toint(st, x)
                if i < len(v.p) - 1:
                    x = self.u(st, x, 8 * nb)
                t = iadd(t, imul(x, 1 << sh))
                sh += 8 * nb
            return t
        if v is UNDEF:
            return self.fresh(st, "undef", tint(w or 32))
        if isinstance(v, (XR, Ptr, Vec, Agg)):
            raise Unsupported("integer expected, got %r" % (v,))
        return v

    def tofp(self, st, v, ty=None):
        if isinstance(v, XR):
            return v
        if v is UNDEF:
            return XR(z3.Real(st.uniq("undef")))
        if isinstance(v, Cat) and len(v.p) == 1:
            return self.tofp(st, v.p[0][1])
        if not isz(v) and v == 0:
            return XR(Fraction(0))
        raise Unsupported("float expected, got %r" % (v,))

    # ------------------------------------------------------------ run
    def run(self, entry, setup=None):
        self.rounds = 0
        while True:
            self.rounds += 1
            if self.rounds > 120:
                raise Unsupported("loop analysis does not converge")
            self.changed = self.struct = False
            self.obligs = []
            self.ntriv = 0
            self.covers = {}
            self.labels = {}
            self.monos = {}
            self.paths = 0
            self.feasible_ends = 0
            for li in self.loops.values():
                li.newhist = {}
                li.newguards = {}
                li.visits = 0
            st = State()
            fn = self.m.fns.get(entry)
            if fn is None:
                raise Unsupported("no function %s" % entry)
            fr = Frame(fn, "", None)
            st.frames.append(fr)
            if setup:
                setup(self, st)
            self.work = [st]
            while self.work:
                s = self.work.pop()
                try:
                    self.run_state(s)
                except PathEnd:
                    pass
                self.paths += 1
                if self.paths > self.maxpaths:
                    raise Unsupported("path limit")
            for li in self.loops.values():
                if li.mode == "cut" and li.newhist.keys() != li.hist.keys():
                    li.hist = dict(li.newhist)
                    self.changed = True
                if li.mode == "cut" and li.newguards.keys() != li.guards.keys():
                    li.guards = dict(li.newguards)
                    self.changed = True
            self.log("forks %s" % sorted(self.forks.items(), key=lambda x: -x[1])[:12])
            self.forks = {}
            self.log("round %d: paths %d queries %d (%.1fs) obligations %d changed %s" % (
                self.rounds, self.paths, self.qn, self.qt, len(self.obligs), self.changed))
            if not self.changed:
                return
            if self.struct:
                # what was refuted under an unfinished loop structure gets another chance
                for li in self.loops.values():
                    li.dead = set()

    def run_state(self, st):
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk]
            if fr.ip >= len(ins):
                raise Unsupported("fell off block")
            I = ins[fr.ip]
            fr.ip += 1
            self.step(st, fr, I)
        self.feasible_ends += 1

    def step(self, st, fr, I):
        h = getattr(self, "i_" + I.op, None)
        if h is None:
            raise Unsupported("instruction %s at %s" % (I.op, self.here(st)))
        try:
            h(st, fr, I)
        except Resolve as e:
            # split the path, then execute the instruction again
            st.frames[-1].ip -= 1
            c = e.c
            ft = self.feasible(st, c)
            if ft and self.feasible(st, z3.Not(c)):
                s2 = st.fork()
                s2.fact(z3.Not(c))
                self.work.append(s2)
            st.fact(c if ft else z3.Not(c))

    def known(self, st, v):
        """a conditional pointer whose condition is decided on this path"""
        while isinstance(v, PIte):
            if v.c.get_id() in st.facts:
                v = v.a
            elif z3.Not(v.c).get_id() in st.facts:
                v = v.b
            else:
                return v
        return v

    def evp(self, st, v):
        """operand that may be a conditional pointer"""
        if v.k == "reg":
            return self.known(st, st.frames[-1].regs.get(v.v)) if v.v in st.frames[-1].regs else self.ev(st, v)
        return self.ev(st, v)

    PURE = {"br", "load", "getelementptr", "icmp", "fcmp", "select", "phi", "add", "sub", "mul", "and", "or", "xor", "shl", "ashr", "lshr",
            "sdiv", "udiv", "srem", "urem", "trunc", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "fneg", "sitofp", "uitofp", "fpext", "fptrunc",
            "freeze", "bitcast"}

    def joinpoint(self, fn, blk):
        """block at which the sides of the branch ending blk meet again after a few side-effect free blocks"""
        c = fn.__dict__.setdefault("joins", {}) if hasattr(fn, "__dict__") else self.joins.setdefault(fn.name, {})
        if blk in c:
            return c[blk]
        c[blk] = None
        t = fn.blocks[blk][-1]
        cand = None
        # forward reach within 10 pure blocks
        def reach(b, stop):
            seen, todo = set(), [b]
            while todo:
                x = todo.pop()
                if x == stop or x in seen:
                    continue
                if x in fn.loops or x == blk:
                    return None
                ins = fn.blocks[x]
                if any(i.op not in self.PURE for i in ins) or ins[-1].op != "br" or len(ins) > 40:
                    return None
                seen.add(x)
                if len(seen) > 10:
                    return None
                todo += list(ins[-1].x)
            return seen
        a, b = t.x
        order = []
        todo = [a, b]
        while todo and len(order) < 24:
            x = todo.pop(0)
            if x not in order:
                order.append(x)
                ins = fn.blocks[x]
                if ins[-1].op == "br":
                    todo += list(ins[-1].x)
        for j in order:
            if j in fn.loops or j == blk:
                continue
            ra, rb = reach(a, j), reach(b, j)
            if ra is not None and rb is not None and fn.blocks[j][-1].op != "unreachable":
                # every loop containing the branch contains the join as well
                if all((blk in body) == (j in body) and all((x in body) == (blk in body) for x in ra | rb) for body in fn.loops.values()):
                    cand = j
                    break
        c[blk] = cand
        return cand

    def run_to(self, st, depth, J):
        """run until the top frame enters J; None if the path ends"""
        fr = st.frames[-1]
        n = 0
        while fr.blk != J:
            I = fr.fn.blocks[fr.blk][fr.ip]
            fr.ip += 1
            n += 1
            try:
                self.step(st, fr, I)
            except PathEnd:
                return None
        return st

    def join(self, st, s2, n0, c, J, fr0):
        """merge s2 (path with not c) into st (path with c)"""
        fa, fb = st.frames[-1], s2.frames[-1]
        if len(st.nondet) != len(s2.nondet) or len(st.watch) != len(s2.watch) or st.g.keys() != s2.g.keys() or st.case != s2.case:
            return False
        if st.mem.keys() != s2.mem.keys() or any(st.mem[k] is not s2.mem[k] for k in st.mem):
            # lazily created symbolic contents are the only admissible difference
            return False
        regs = {}
        try:
            for r, v in fa.regs.items():
                if r in fb.regs:
                    w = fb.regs[r]
                    if v is w or veq(v, w):
                        regs[r] = v
                    elif isinstance(v, (Ptr, PIte)) and isinstance(w, (Ptr, PIte)):
                        regs[r] = PIte(c, v, w)
                    else:
                        regs[r] = self.selv(st, c, v, w)
        except Unsupported:
            return False
        fa.regs = regs
        ea, eb = st.pc[n0:], s2.pc[n0:]
        base = st.pc[:n0]
        st.pc = []
        st.facts = set()
        for f in base:
            st.fact(f)
        ia = {f.get_id() for f in ea}
        nc = z3.Not(c)
        for f in ea:
            if f.eq(c):
                continue
            st.fact(f if any(f.eq(x) for x in eb) else z3.Implies(c, f))
        for f in eb:
            if f.get_id() in ia or f.eq(nc) or f.eq(z3.simplify(nc)):
                continue
            st.fact(z3.Implies(nc, f))
        for k, v in s2.cnt.items():
            st.cnt[k] = max(v, st.cnt.get(k, 0))
        for x, y in zip(st.loops, s2.loops):
            if hasattr(x, "ctl") and hasattr(y, "ctl"):
                x.ctl = x.ctl or y.ctl
                x.symx = x.symx or y.symx
        st.own = set()
        return True

    def setr(self, fr, I, v):
        if I.dst:
            fr.regs[I.dst] = v

    # ------------------------------------------------------------ control flow
    def goto(self, st, fr, dst):
        src = fr.blk
        fn = fr.fn
        depth = len(st.frames)
        blk = fn.blocks[dst]
        newv = {}
        i = 0
        while i < len(blk) and blk[i].op == "phi":
            I = blk[i]
            for v, b in I.x:
                if b == src:
                    newv[I.dst] = ((self.ev if dst in fn.loops else self.evp)(st, v), I.ty)
                    break
            else:
                raise Unsupported("phi without edge")
            i += 1
        # leave loops not containing dst
        while st.loops and st.loops[-1].depth == depth and dst not in fn.loops[st.loops[-1].hdr]:
            st.loops.pop()
        fr.blk = dst
        fr.ip = i
        if dst in fn.loops:
            self.loop_head(st, fr, dst, newv)
        else:
            for d, (v, _) in newv.items():
                fr.regs[d] = v

    def lkey(self, st, fr, hdr):
        return st.case + "|" + "/".join(f.site for f in st.frames) + "|" + fr.fn.name + "|" + hdr

    def loop_head(self, st, fr, hdr, newv):
        depth = len(st.frames)
        act = st.loops[-1] if st.loops else None
        if act is not None and act.depth == depth and act.hdr == hdr:
            if act.mode == "unroll":
                if not act.ctl:
                    li = self.loops[act.key]
                    li.mode = "cut"
                    self.changed = self.struct = True
                    raise PathEnd()
                act.n += 1
                act.ctl = False
                if act.symx and not any(self.concrete(v) and not (d in act.phi0 and veq(v, act.phi0[d])) for d, (v, _) in newv.items()):
                    # decided exits alone do not make it a counted loop
                    li = self.loops[act.key]
                    li.mode = "cut"
                    self.changed = self.struct = True
                    raise PathEnd()
                act.phi0 = {d: v for d, (v, _) in newv.items()}
                if act.n > (12 if act.symx else 600):
                    li = self.loops[act.key]
                    li.mode = "cut"
                    self.changed = self.struct = True
                    raise PathEnd()
                for d, (v, _) in newv.items():
                    fr.regs[d] = v
                return
            self.back_edge(st, fr, act, newv)
            raise PathEnd()
        key = self.lkey(st, fr, hdr)
        li = self.loops.get(key)
        if li is None:
            li = self.loops[key] = LoopInfo(key)
            li.newguards = {}
            li.loc = self.loop_loc(fr.fn, hdr)
            li.fnname = fr.fn.name
        a = Act()
        a.key, a.hdr, a.depth, a.mode = key, hdr, depth, li.mode
        a.n, a.ctl, a.symx = 0, False, False
        if li.mode == "unroll":
            for d, (v, _) in newv.items():
                fr.regs[d] = v
            a.phi0 = {d: v for d, (v, _) in newv.items()}
            st.loops.append(a)
            return
        self.loop_entry(st, fr, a, li, newv)

    @staticmethod
    def concrete(v):
        if isinstance(v, Ptr):
            return v.obj is not None and not isz(v.off) and not isinstance(v.off, tuple)
        return isinstance(v, (int, Fraction)) or isinstance(v, XR) and not isz(v.r)

    def loop_loc(self, fn, hdr):
        best = None
        for b in fn.loops[hdr]:
            for I in fn.blocks[b]:
                if I.dbg is not None:
                    l = self.m.loc(I.dbg)
                    if b == hdr:
                        return l
                    best = best or l
        return best

    # -- view for candidates
    def var_vals(self, st, act, li, phivals):
        """current values of loop variables of act"""
        vals = {}
        for d, v in phivals.items():
            vals[("phi", d)] = v
        for (on, off), nb in li.mod_cells.items():
            o = st.mem.get(on)
            if o is None:
                continue
            c = o.cells.get(off)
            if c is not None and c[0] == nb:
                vals[("cell", on, off)] = c[1]
        return vals

    def loop_entry(self, st, fr, a, li, newv):
        li.visits += 1
        base = st.uniq("L:" + li.key.replace("|", "!"))
        a.cnt0 = dict(st.cnt)
        a.uid = base
        a.phi0 = {d: v for d, (v, _) in newv.items()}
        ty = {d: t for d, (_, t) in newv.items()}
        a.k = 0
        a.cell0 = {}
        for (on, off), nb in li.mod_cells.items():
            o = st.mem.get(on)
            if o is not None:
                c = o.cells.get(off)
                if c is not None and c[0] == nb:
                    a.cell0[("cell", on, off)] = c[1]
        for d, v in a.phi0.items():
            a.cell0[("phi", d)] = v
        a.phih = dict(a.phi0)
        st.loops.append(a)
        a.old_reg = None
        a.hpc = len(st.pc)
        # initiation
        self.check_cands(st, a, li, dict(a.phi0), 0, "init")
        # havoc
        k = z3.Int(base + ":k")
        self.setrng(k, 0, None)
        st.fact(k >= 0)
        a.k = k
        allowed_before = None
        for d, v in a.phi0.items():
            var = ("phi", d)
            fr.regs[d] = a.phih[d] = self.havoc(st, base + ":" + d, var, v, ty[d], li, k, a)
        for (on, off), nb in sorted(li.mod_cells.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            o = st.mem.get(on)
            if o is None:
                continue
            c = o.cells.get(off)
            w = self.wobj(st, on)
            v0 = c[1] if c is not None and c[0] == nb else None
            var = ("cell", on, off)
            if v0 is None or v0 is UNDEF:
                # drop: unknown at head; next load creates a fresh value
                for co in [co for co, (cn, _) in w.cells.items() if co < off + nb and off < co + cn]:
                    del w.cells[co]
                continue
            w.cells[off] = (nb, self.havoc(st, base + ":%s+%s" % (on, off), var, v0, None, li, k, a))
        for (on, b) in sorted(li.mod_regs, key=str):
            o = st.mem.get(on)
            if o is None or b not in o.regions:
                continue
            w = self.wobj(st, on)
            r = w.regions[b]
            for f, (nb, arr) in list(r.fields.items()):
                r.fields[f] = (nb, Arr(base + ":%s[%s].%d" % (on, b, f), arr.kind, None, None, None))
        for act2 in st.loops[:-1]:
            pass
        # assume alive candidates
        a.assumed = set()
        for n, c in self.cands(st, a, li, dict(a.phih), k):
            if n in li.dead:
                continue
            if n not in a.checked:
                self.kill(li, n, "not established", st)
                continue
            a.assumed.add(n)
            if c is not True:
                st.fact(zb(c))
        self.step_lemmas(st, li, k)
        a.mem_head = dict(st.mem)
        st.own = set()
        a.hpc = len(st.pc)
        if not self.feasible(st, z3.BoolVal(True)):
            if os.environ.get("VC_ENDS"):
                sv = z3.Solver()
                fs = list(st.pc)
                for i, f in enumerate(fs): sv.assert_and_track(f, "a%d" % i)
                sv.check()
                for u in sv.unsat_core(): print("CORE", fs[int(str(u)[1:])])
            raise PathEnd()

    def havoc(self, st, name, var, v0, ty, li, k, a):
        step = li.steps.get(var, 0 if var[0] == "phi" else 0)
        if var not in li.steps:
            step = 0 if var[0] == "cell" else None
            # phi never seen to change (first round): keep the initial value
            step = 0
        if isinstance(step, Fraction) or (isz(step) and z3.is_real(step)):
            if isinstance(v0, XR) and v0.plain():
                return XR(radd(v0.r, rmul(zr(step), z3.ToReal(k))))
            step = None
        if step is not None and not isinstance(step, str):
            if not isz(step) and step == 0:
                return v0
            if isinstance(v0, Ptr):
                return Ptr(v0.obj, iadd(v0.off, imul(k, step)), v0.hint)
            if isinstance(v0, (int,)) and not isinstance(v0, bool) or (isz(v0) and z3.is_int(v0)):
                t = iadd(v0, imul(k, step))
                # w-bit range: machine value; overflow obligations guard it
                return t
        # fresh
        if isinstance(v0, XR):
            r = XR(z3.Real(name))
            if ("flags", var) in li.steps:
                r = XR(r.r, z3.Bool(name + ":nan"), z3.Bool(name + ":inf"))
            return r
        if isinstance(v0, Ptr):
            if step == "multi":
                raise Unsupported("loop-carried pointer over several objects")
            off = z3.Int(name + ":off")
            if isinstance(v0.off, tuple):
                raise Unsupported("loop-carried keyed pointer")
            st_ = li.steps.get(("stride", var), 1)
            t = iadd(v0.off, imul(off, st_))
            return Ptr(v0.obj, t, v0.hint)
        if isinstance(v0, bool) or (isz(v0) and z3.is_bool(v0)):
            return z3.Bool(name)
        if isinstance(v0, Vec):
            return Vec([self.havoc(st, "%s.%d" % (name, i), ("x",), e, None, FAKE, k, a) for i, e in enumerate(v0.e)])
        if isinstance(v0, Cat):
            return Cat([(n, self.havoc(st, "%s.%d" % (name, i), ("x",), e, None, FAKE, k, a)) for i, (n, e) in enumerate(v0.p)])
        if v0 is UNDEF:
            if ty is not None:
                return self.fresh(st, name, ty)
            return UNDEF
        v = z3.Int(name)
        w = 64
        if ty is not None and ty.k == "int":
            w = ty.n
        elif var[0] == "cell":
            w = 8 * li.mod_cells[(var[1], var[2])]
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        self.setrng(v, lo, hi)
        st.fact(v >= lo)
        st.fact(v <= hi)
        return v

    def back_edge(self, st, fr, act, newv):
        li = self.loops[act.key]
        if not self.feasible(st, z3.BoolVal(True)):
            return
        hz = act.uid
        # diff phis
        for d, (v, t) in newv.items():
            self.learn(st, act, li, ("phi", d), act.phi0[d], act.phih[d], v)
        # diff memory
        for on, ho in act.mem_head.items():
            no = st.mem.get(on)
            if no is ho or no is None:
                continue
            for off, (nb, hv) in ho.cells.items():
                nc = no.cells.get(off)
                if nc is not None and nc[0] == nb and (nc[1] is hv or veq(nc[1], hv)):
                    if (on, off) in li.mod_cells:
                        self.learn(st, act, li, ("cell", on, off), act.cell0.get(("cell", on, off)), hv, nc[1])
                    continue
                if (on, off) not in li.mod_cells:
                    li.mod_cells[(on, off)] = nb
                    self.changed = self.struct = True
                if nc is not None and nc[0] == nb:
                    self.learn(st, act, li, ("cell", on, off), act.cell0.get(("cell", on, off), hv), hv, nc[1])
                else:
                    li.steps[("cell", on, off)] = None
            for off, (nb, nv) in no.cells.items():
                if off not in ho.cells and (on, off) not in li.mod_cells and nv is not UNDEF:
                    li.mod_cells[(on, off)] = nb
                    li.steps[("cell", on, off)] = None
                    self.changed = self.struct = True
            for b, nr in no.regions.items():
                hr = ho.regions.get(b)
                ch = False
                for f, (nb, na) in nr.fields.items():
                    if hr is not None and f in hr.fields:
                        ha = hr.fields[f][1]
                        if ha.ops is not na.ops or ha.base != na.base:
                            ch = True
                    elif na.ops is not None:
                        ch = True
                if ch and (on, b) not in li.mod_regs:
                    li.mod_regs.add((on, b))
                    self.changed = self.struct = True
            if no.freed and not ho.freed:
                raise Unsupported("object freed in loop")
            if no.size is not ho.size and not veq(no.size, ho.size):
                raise Unsupported("object resized in loop")
        if li.mod_cells or True:
            pass
        # record history of this iteration (path condition since head)
        if st.skolem:
            conj = []
            for c in st.pc[act.hpc:]:
                if self.only_k(c, act):
                    conj.append(c)
            e = z3.And(*conj) if conj else z3.BoolVal(True)
            e = z3.simplify(e)
            li.newhist[e.sexpr()] = (e, act.k)
        # guards
        for c in st.pc[act.hpc:]:
            if self.only_k(c, act) and self.has(c, act.k) and self.small(c):
                li.newguards[c.sexpr()] = (c, act.k)
        self.check_cands(st, act, li, {d: v for d, (v, _) in newv.items()}, iadd(act.k, 1), "step")

    def small(self, c):
        n = [0]

        def go(e):
            n[0] += 1
            if n[0] > 40:
                return
            for x in e.children():
                go(x)
        go(c)
        return n[0] <= 40

    def syms(self, c):
        r = getattr(self, "_symc", None)
        if r is None:
            r = self._symc = {}
        i = c.get_id()
        if i in r:
            return r[i][1]
        out = set()
        seen = set()
        w = [c]
        while w:
            e = w.pop()
            j = e.get_id()
            if j in seen:
                continue
            seen.add(j)
            d = e.decl() if z3.is_app(e) else None
            if d is not None and d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            w += e.children()
        r[i] = (c, out)
        return out

    def step_lemmas(self, st, li, k):
        """products k*step of a real step lie between 0 and N*step while 0 <= k <= N (N from the loop's guards)"""
        steps = [z3.simplify(x) for v, x in li.steps.items() if isz(x) and z3.is_real(x)]
        if not steps or not isz(k):
            return
        for _, (c, ksym) in sorted(li.guards.items()):
            e = z3.simplify(z3.substitute(c, (ksym, k)))
            neg = z3.is_not(e)
            if neg:
                e = e.arg(0)
            if not (z3.is_le(e) or z3.is_ge(e) or z3.is_lt(e) or z3.is_gt(e)) or not z3.is_int(e.arg(0)):
                continue
            d, c0 = lin(e.arg(0) - e.arg(1))
            kid = zi(k).get_id()
            if kid not in d or d[kid][1] not in (1, -1):
                continue
            m = d[kid][1]
            n = z3.IntVal(-c0 * m)
            for i, (t, co) in d.items():
                if i != kid:
                    n = n - m * co * t
            n = z3.simplify(n)
            if self.has(n, k):
                continue
            done = set()
            for x in steps:
                if x.get_id() in done:
                    continue
                done.add(x.get_id())
                kx, nx = z3.ToReal(k) * x, z3.ToReal(n) * x
                st.fact(z3.Implies(z3.And(k >= 0, k <= n, x >= 0), z3.And(kx >= 0, kx <= nx)))
                st.fact(z3.Implies(z3.And(k >= 0, k <= n, x <= 0), z3.And(kx <= 0, kx >= nx)))
                if z3.is_div(x) and z3.simplify(x.arg(1) - z3.ToReal(n)).eq(z3.RealVal(0)):
                    st.fact(z3.Implies(n >= 1, nx == x.arg(0)))

    def only_k(self, c, act):
        """term mentions no variable havocked at this loop head or created since, other than k"""
        hz = act.uid
        for s in self.syms(c):
            if s == hz + ":k":
                continue
            if s.startswith(hz + ":"):
                return False
            m = BASE.match(s)
            n0 = act.cnt0.get(m.group(1))
            if n0 is None:
                # a name never drawn before this head: an input when nothing of that name has been drawn at all
                if m.group(1) in DRAWN:
                    return False
            elif int(m.group(2) or 0) >= n0:
                return False
        return True

    def has(self, c, k):
        return k.decl().name() in self.syms(c)

    def unflag(self, st, x):
        """x with the case distinctions that the path already decides taken out"""
        if not isinstance(x, XR) or x.plain():
            return x
        if not (self.provable(st, bnot(x.nan)) and self.provable(st, bnot(x.inf))):
            return x
        return XR(self.unite(st, x.r))

    def unite(self, st, r):
        skip = set()
        for _ in range(6):
            c = self.itecond(r, skip)
            if c is None:
                break
            v = False if self.provable(st, z3.Not(c)) else True if self.provable(st, c) else None
            if v is None:
                skip.add(c.get_id())
                continue
            r = z3.simplify(z3.substitute(r, (c, z3.BoolVal(v))))
        return r

    @staticmethod
    def itecond(t, skip=()):
        """an outermost case distinction of the term"""
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if not isz(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE) and x.arg(0).get_id() not in skip:
                return x.arg(0)
            todo = x.children() + todo
        return None

    def learn(self, st, act, li, var, v0, hv, nv):
        if isinstance(nv, XR) and isinstance(hv, XR) and hv.plain() and li.steps.get(var, 0) is not None:
            nv = self.unflag(st, nv)
        cur = li.steps.get(var, 0)
        if var not in li.steps:
            cur = "new"
        if cur is None and var in li.steps:
            if isinstance(nv, XR) and not nv.plain() and ("flags", var) not in li.steps:
                li.steps[("flags", var)] = True
                self.changed = self.struct = True
            if isinstance(nv, Ptr):
                self.learn_stride(st, li, var, v0, nv)
            self.learn_bounds(st, li, var, hv, nv)
            return
        d = None
        if isinstance(hv, Ptr) and isinstance(nv, Ptr):
            if hv.obj != nv.obj:
                d = "multi"
            elif isinstance(hv.off, tuple) or isinstance(nv.off, tuple):
                d = 0 if veq(hv, nv) else None
            else:
                x = z3.simplify(zi(isub(nv.off, hv.off)))
                d = x.as_long() if z3.is_int_value(x) else None
        elif isinstance(hv, XR) and isinstance(nv, XR):
            if hv.plain() and nv.plain():
                x = z3.simplify(zr(rsub(nv.r, hv.r)), som=True)
                if self.itecond(x) is not None:
                    y = self.unite(st, nv.r)
                    if y is not nv.r:
                        x = z3.simplify(zr(rsub(y, hv.r)), som=True)
                if z3.is_rational_value(x):
                    d = Fraction(x.numerator_as_long(), x.denominator_as_long())
                    if d == 0:
                        d = 0
                elif self.only_k(x, act) and not self.has(x, act.k):
                    d = x
                if d is None:
                    self.log("no step %s: %s" % (var, " ".join(str(x).split())[:600]))
            else:
                self.log("no step %s: %s" % (var, " ".join(str(nv).split())[:600]))
        elif (isinstance(hv, int) and not isinstance(hv, bool) or (isz(hv) and z3.is_int(hv))) and \
                (isinstance(nv, int) and not isinstance(nv, bool) or (isz(nv) and z3.is_int(nv))):
            x = z3.simplify(zi(isub(nv, hv)))
            if z3.is_int_value(x):
                d = x.as_long()
            elif self.only_k(x, act) and not self.has(x, act.k):
                d = x
        elif veq(hv, nv):
            d = 0
        if isinstance(cur, str) and cur == "new":
            li.steps[var] = d
            if not (not isz(d) and d == 0 and d is not None):
                self.changed = self.struct = True
            elif var[0] == "phi":
                pass
            if d is None:
                if isinstance(nv, XR) and not nv.plain():
                    li.steps[("flags", var)] = True
                if isinstance(nv, Ptr):
                    self.learn_stride(st, li, var, v0, nv)
            return
        if d is not None and cur is not None and (same(d, cur) or (not isz(d) and not isz(cur) and d == cur)):
            return
        if d is not None and cur is not None and isz(d) and isz(cur) and d.sexpr() == cur.sexpr():
            return
        li.steps[var] = None
        self.learn_bounds(st, li, var, hv, nv)
        if isinstance(nv, XR) and not nv.plain():
            li.steps[("flags", var)] = True
        if isinstance(nv, Ptr):
            self.learn_stride(st, li, var, v0, nv)
        self.changed = self.struct = True

    def learn_bounds(self, st, li, var, hv, nv):
        """bounds of the change per iteration, where interval arithmetic gives some"""
        ok = lambda x: isinstance(x, int) and not isinstance(x, bool) or (isz(x) and z3.is_int(x))
        if not ok(hv) or not ok(nv):
            return
        if isz(nv) and z3.is_app_of(nv, z3.Z3_OP_ITE):
            c = nv.arg(0)
            nv = nv.arg(2) if self.provable(st, z3.Not(c)) else nv.arg(1) if self.provable(st, c) else nv
        d, c0 = lin(isub(nv, hv))
        lo = hi = c0
        for t, m in d.values():
            if m == 0:
                continue
            a, b = self.rng(t)
            if m < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + m * a
            hi = None if hi is None or b is None else hi + m * b
        o = li.stepb.get(var)
        if o is not None:
            lo = None if lo is None or o[0] is None else min(lo, o[0])
            hi = None if hi is None or o[1] is None else max(hi, o[1])
        if o != (lo, hi):
            li.stepb[var] = (lo, hi)
            self.changed = self.struct = True

    def learn_stride(self, st, li, var, v0, nv):
        from math import gcd
        if not isinstance(v0, Ptr) or v0.obj != nv.obj:
            li.steps[var] = "multi"
            return
        d, c = lin(isub(nv.off, v0.off))
        g = abs(c)
        for _, m in d.values():
            g = gcd(g, abs(m))
        o = li.steps.get(("stride", var))
        n = gcd(o, g) if o else g
        if n == 0:
            n = 1
        if n != o:
            li.steps[("stride", var)] = n
            self.changed = self.struct = True

    # ------------------------------------------------------------ candidates
    def cands(self, st, act, li, phivals, k):
        """[(name, cond)] for the current values"""
        out = []
        vals = self.var_vals(st, act, li, phivals)
        first = act.cell0
        # guards of the previous iteration
        for s, (c, ksym) in sorted(li.guards.items()):
            e = z3.substitute(c, (ksym, zi(isub(k, 1))))
            out.append(("guard:" + s, bor(ile(k, 0), e)))
        # history over skolem indices
        if st.skolem and li.hist:
            for sn, sv in st.skolem.items():
                ds = []
                for s, (e, ksym) in sorted(li.hist.items()):
                    ds.append(z3.substitute(e, (ksym, zi(sv))))
                out.append(("hist:%s:" % sn + "|".join(sorted(li.hist)), bor(ilt(sv, 0), ile(k, sv), bor(*ds))))
        # generic facts on non-linear integer variables
        for var, v in vals.items():
            stp = li.steps.get(var, 0)
            if stp is None:
                v0 = first.get(var)
                if isinstance(v, Ptr):
                    if isinstance(v0, Ptr) and not isinstance(v.off, tuple):
                        out.append(("ge0:%s" % (var,), ile(v0.off, v.off)))
                    continue
                if isinstance(v, XR):
                    nm = "%s" % (var,)
                    out.append(("fnn:" + nm, rle(0, v.r)))
                    out.append(("fnp:" + nm, rle(v.r, 0)))
                    if isinstance(v0, XR):
                        out.append(("fge0:" + nm, rle(v0.r, v.r)))
                        out.append(("fle0:" + nm, rle(v.r, v0.r)))
                    if not v.plain():
                        out.append(("fin:" + nm, band(bnot(v.nan), bnot(v.inf))))
                        out.append(("notnan:" + nm, bnot(v.nan)))
                    continue
                if isinstance(v, bool) or z3.is_bool(v):
                    out.append(("true:%s" % (var,), v))
                    out.append(("false:%s" % (var,), bnot(v)))
                    if v0 is not None:
                        out.append(("same:%s" % (var,), beq(v, v0)))
                    continue
                if v is UNDEF or isinstance(v, (Cat, Vec, Agg)):
                    continue
                nm = "%s" % (var,)
                out.append(("nn:" + nm, ile(0, v)))
                if v0 is not None and not isinstance(v0, (Cat, XR, Ptr)) and v0 is not UNDEF:
                    out.append(("ge:" + nm, ile(v0, v)))
                    out.append(("le:" + nm, ile(v, v0)))
                out.append(("lek:" + nm, ile(v, k)))
                if v0 is not None and var in li.stepb and (isinstance(v0, int) or isz(v0)):
                    lo, hi = li.stepb[var]
                    if hi is not None and 1 < hi < 1 << 20:
                        out.append(("sub%d:%s" % (hi, nm), ile(isub(v, v0), imul(k, hi))))
                    if lo is not None and -(1 << 20) < lo < 0:
                        out.append(("slb%d:%s" % (lo, nm), ile(imul(k, lo), isub(v, v0))))
        # variables that start with the same (symbolic) value stay equal
        eq0 = {}
        for var in vals:
            v0 = first.get(var)
            if li.steps.get(var, 0) is None and isz(v0) and z3.is_int(v0) and not isinstance(vals[var], (Cat, XR, Ptr, Vec, Agg)) and vals[var] is not UNDEF:
                eq0.setdefault(v0.get_id(), []).append(var)
        for vs in eq0.values():
            for i, a in enumerate(vs[:6]):
                for b in vs[i + 1:6]:
                    out.append(("eq:%s|%s" % (a, b), ieq(vals[a], vals[b])))
        # watched cells
        view = View(self, st, act, li, vals, k)
        for wi, (wn, ptr, old) in enumerate(st.watch):
            cur = self.peek(st, ptr, old)
            if cur is None:
                continue
            out.append(("same:w%s" % wn, self.ident(cur, old)))
        for fi, f in enumerate(st.fills):
            out += self.fill_cands(st, view, fi, f)
        for hi, (fn, coords) in enumerate(st.hints):
            if coords is None and "hint%d" % hi in li.dead:
                continue
            c = self.hint_val(st, fn)
            if c is None:
                continue
            if coords is None:
                out.append(("hint%d" % hi, c))
            else:
                if "done%d:all" % hi not in li.dead:
                    out.append(("done%d:all" % hi, c))
                for sfx, done in self.combos(view, "done%d:" % hi, coords, None):
                    out.append(("done%d:%s" % (hi, sfx), bor(bnot(done), c)))
        for t in self.templates:
            out += t(view)
        # a counter that runs up (down) to a bound it is compared with by != has not passed it
        for s, (c, ksym) in sorted(li.guards.items()):
            x = c.arg(0) if z3.is_not(c) else None
            if x is None or not z3.is_eq(x) or not z3.is_int(x.arg(0)):
                continue
            e = z3.substitute(x, (ksym, zi(k)))
            out.append(("ne<=:" + s, e.arg(0) <= e.arg(1)))
            out.append(("ne>=:" + s, e.arg(0) >= e.arg(1)))
        return out

    def hint_val(self, st, fn):
        depth = len(st.frames)
        nl = len(st.loops)
        nw = len(self.work)
        no = len(self.obligs)
        was, self.inhint = self.inhint, True
        try:
            c = self.sub_run(st, fn, [], True)
        except (PathEnd, Unsupported) as e:
            self.log("hint %s not evaluated: %s" % (fn.name, e))
            del st.frames[depth:]
            del st.loops[nl:]
            del self.work[nw:]
            del self.obligs[no:]
            return None
        finally:
            self.inhint = was
        if c is UNDEF:
            return None
        if not (isinstance(c, bool) or (isz(c) and z3.is_bool(c))):
            c = bnot(ieq(c, 0))
        return c

    def ident(self, a, b):
        if isinstance(a, XR):
            return xident(a, b)
        if isinstance(a, Ptr):
            return veq(a, b)
        if isinstance(a, bool) or z3.is_bool(a):
            return beq(a, b)
        return ieq(a, b)

    def peek(self, st, ptr, like):
        """load without obligations"""
        o = st.mem.get(ptr[0].obj)
        if o is None:
            return None
        return self.load(st, ptr[0], ptr[1], False)

    def fill_cands(self, st, view, fi, f):
        """f = (ptr, ty, old, new, inbox, coords) : cell == ite(inbox & done(coords), new, old)
        done = lexicographic 'coords already passed' over the active cut loops, all orders/vars tried"""
        ptr, ty, old, new, inbox, coords = f
        cur = self.peek(st, (ptr, ty), old)
        if cur is None:
            return []
        out = []
        if not veq(old, new):
            out.append(("fill%d:all" % fi, self.ident(cur, self.merge(inbox, new, old))))
        for sfx, done in self.combos(view, "fill%d:" % fi, coords, ptr):
            out.append(("fill%d:%s" % (fi, sfx), self.ident(cur, self.merge(band(inbox, done), new, old))))
        return out

    def combos(self, view, pre, coords, ptr):
        """lexicographic 'coords already passed' over the active cut loops, all orders/variables"""
        levels = view.levels
        # per level: list of (varname, value, step, init)
        import itertools
        opts = []
        for lv in levels:
            o = []
            for var, v, stp in lv:
                if not isz(stp) and stp in (1, -1):
                    for ci, q in enumerate(coords):
                        o.append((var, ci, v, stp, q))
            opts.append(o)
        for o, lv in zip(opts, view.ptrs):
            # a pointer walking over the storage of the cell
            for var, v, stp in lv:
                if ptr is not None and v.obj == ptr.obj and not isinstance(ptr.off, tuple) and not isinstance(v.off, tuple):
                    o.append((var, 9, v.off, stp, ptr.off))
        n = 0
        # a level may be irrelevant (None): choose for the current (innermost) level always one var
        for combo in itertools.product(*([[None] + o for o in opts[:-1]] + [opts[-1]])) if opts else []:
            used = [c[1] for c in combo if c]
            if len(set(used)) != len(used):
                continue
            sfx = ";".join("-" if c is None else "%s.%s.%d" % (c[0], c[1], c[3]) for c in combo)
            if pre + sfx in view.li.dead:
                continue
            done = False
            for c in reversed([c for c in combo if c]):
                _, ci, v, stp, q = c
                lt = ilt(q, v) if stp > 0 else ilt(v, q)
                done = bor(lt, band(ieq(q, v), done))
            yield sfx, done
            n += 1
            if n > 400:
                break

    def check_cands(self, st, act, li, phivals, k, phase):
        cs = [(n, c) for n, c in self.cands(st, act, li, phivals, k) if n not in li.dead]
        # only what is established when the loop is entered and by every iteration may be assumed in between
        if phase == "init":
            act.checked = {n for n, _ in cs}
        else:
            for n in sorted(act.assumed - {n for n, _ in cs} - li.dead):
                self.kill(li, n, "not re-established", st)
        todo = [(n, zb(c)) for n, c in cs if c is not True]
        if not todo:
            return
        alive = dict(todo)
        t0 = time.time()
        if phase.startswith("step") and st.skolem:
            for n in [n for n in alive if n.startswith(("hist:", "split:"))]:
                if self.split_hist(st, act, st.skolem[n.split(":")[1]], alive[n]):
                    del alive[n]
        nl = any(map(nla.nonlinear, st.pc)) or any(map(nla.nonlinear, alive.values()))
        if nl:
            self.check_cands_nl(st, li, alive, phase)
            self.qt += time.time() - t0
            if time.time() - t0 > 2:
                self.log("cands %s %s: %d, dead now %d, %.1fs %s" % (li.loc[1:], phase, len(todo), len([n for n in alive if n in li.dead]), time.time() - t0, self.nlstat))
            return
        # all at once first
        s = z3.SimpleSolver()
        s.set("timeout", self.cand_ms)
        sadd(s, st.pc)
        while alive:
            self.qn += 1
            s.push()
            s.add(z3.Or(*[z3.Not(c) for c in alive.values()]))
            r = s.check()
            if r == z3.unsat:
                s.pop()
                break
            if r == z3.sat:
                mdl = s.model()
                kill = [n for n, c in alive.items() if z3.is_false(mdl.eval(c, model_completion=True))]
                s.pop()
                if not kill:
                    r = z3.unknown
                else:
                    for n in kill:
                        self.kill(li, n, phase, st)
                        del alive[n]
                    continue
            else:
                s.pop()
            # one by one
            for n in list(alive):
                self.qn += 1
                s2 = z3.Solver()
                s2.set("timeout", self.cand_ms)
                sadd(s2, st.pc)
                s2.add(z3.Not(alive[n]))
                rr = s2.check()
                if rr != z3.unsat:
                    self.kill(li, n, phase + (":unknown" if rr == z3.unknown else ""), st)
                    del alive[n]
            break
        self.qt += time.time() - t0
        if time.time() - t0 > 2:
            self.log("cands %s %s: %d -> %d %.1fs" % (li.loc, phase, len(todo), len(alive), time.time() - t0))
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    def split_hist(self, st, act, sv, c):
        """the observed iteration is this one, or another"""
        neg = z3.Not(c)
        sv, k = zi(sv), zi(act.k)
        for extra, sub in ((sv != k, None), (None, (sv, k))):
            s = z3.SimpleSolver()
            s.set("timeout", 1000)
            self.qn += 1
            fs = list(st.pc) + [neg]
            fs = [z3.simplify(z3.substitute(f, sub) if sub else f) for f in fs]
            if sub:
                extra = z3.BoolVal(True)
            ab = nla.abstract(fs, extra) if any(map(nla.nonlinear, fs)) else None
            fs = ab if ab is not None else fs + [extra]
            s.add(*fs)
            if s.check() != z3.unsat:
                if os.environ.get("VC_SPLIT"):
                    print("SPLIT fails", "same" if sub else "other", s.check())
                    open("/tmp/split.txt", "w").write("\n".join(map(str, [z3.simplify(z3.substitute(f, sub)) if sub else f for f in list(st.pc) + [neg]])))
                return False
        return True

    def check_cands_nl(self, st, li, alive, phase):
        """same with products: linear abstraction first; what it does not prove is tried exactly, one by one"""
        names = list(alive)
        tt = [time.time()]
        ab = nla.abstract(st.pc, z3.And(z3.BoolVal(True), *[z3.Bool("cand!%d" % i) == alive[n] for i, n in enumerate(names)]))
        s = z3.SimpleSolver()
        s.set("timeout", self.cand_ms)
        left = dict((n, z3.Bool("cand!%d" % i)) for i, n in enumerate(names))
        rest = []
        if ab is None:
            rest = names
        else:
            sadd(s, ab)
            while left:
                self.qn += 1
                s.push()
                s.add(z3.Or(*[z3.Not(b) for b in left.values()]))
                r = s.check()
                if r == z3.sat:
                    mdl = s.model()
                    bad = [n for n, b in left.items() if z3.is_false(mdl.eval(b))]
                    s.pop()
                    if not bad:
                        rest += list(left)
                        break
                    rest += bad
                    for n in bad:
                        del left[n]
                    continue
                s.pop()
                if r != z3.unsat:
                    rest += list(left)
                break
        tt.append(time.time())
        self.nlstat = ()
        # exact counterexamples for many at once
        s2 = z3.SimpleSolver()
        s2.set("timeout", 300 if ab is not None else self.cand_ms)
        sadd(s2, st.pc)
        todo = list(rest)
        while todo:
            self.qn += 1
            s2.push()
            s2.add(z3.Or(*[z3.Not(alive[n]) for n in todo]))
            r = s2.check()
            bad = []
            if r == z3.sat:
                mdl = s2.model()
                bad = [n for n in todo if z3.is_false(mdl.eval(alive[n], model_completion=True))]
            s2.pop()
            if r == z3.unsat:
                todo = []
            if not bad:
                break
            for n in bad:
                self.kill(li, n, phase, st)
                todo.remove(n)
        # small sizes make most products linear: genuine counterexamples are found quickly
        szs = [z3.Int(n) for n, kind, _, _, _ in st.nondet if kind == "size"]
        if todo and szs:
            sc = z3.SimpleSolver()
            sc.set("timeout", 500)
            sadd(sc, st.pc)
            for base in (2, 3, 1):
                sc.push()
                for i, v in enumerate(szs):
                    lo, hi = self.rng(v)
                    sc.add(v == min(max(lo + base + i % 2, lo), hi))
                while todo:
                    self.qn += 1
                    sc.push()
                    sc.add(z3.Or(*[z3.Not(alive[n]) for n in todo]))
                    r = sc.check()
                    bad = []
                    if r == z3.sat:
                        mdl = sc.model()
                        bad = [n for n in todo if z3.is_false(mdl.eval(alive[n], model_completion=True))]
                    sc.pop()
                    if not bad:
                        break
                    for n in bad:
                        self.kill(li, n, phase, st)
                        todo.remove(n)
                sc.pop()
        tt.append(time.time())
        self.nlstat = (len(names), len(rest), len(todo), [round(b - a, 1) for a, b in zip(tt, tt[1:])])
        for n in todo:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            self.qn += 1
            s2.push()
            s2.add(z3.Not(alive[n]))
            r = s2.check()
            s2.pop()
            if r == z3.unknown and ab is not None:
                s.push()
                s.set("timeout", 1000)
                s.add(z3.Not(z3.Bool("cand!%d" % names.index(n))))
                if s.check() == z3.unsat:
                    r = z3.unsat
                s.pop()
            if r != z3.unsat:
                self.kill(li, n, phase, st)

    def kill(self, li, n, phase, st):
        li.dead.add(n)
        self.changed = True
        self.dropped.append((li.key, n, phase))
        self.log("drop %s %s @%s" % (n, phase, li.loc))

    # ------------------------------------------------------------ instructions
    def i_br(self, st, fr, I):
        if not I.ops:
            self.goto(st, fr, I.x[0])
            return
        c = self.ev(st, I.ops[0])
        if c is UNDEF:
            raise Unsupported("branch on undef")
        if not isinstance(c, bool) and not z3.is_bool(c):
            c = bnot(ieq(c, 0))
        self.branch(st, fr, c, I.x[0], I.x[1])

    def pathdecided(self, fn, hdr, blk):
        """the exit condition at the end of the block is a merge inside the loop body (a flag set on the way), not a count"""
        key = (fn.name, hdr, blk)
        r = self.pdec.get(key)
        if r is None:
            body = fn.loops[hdr]
            defs = {I.dst: (b, I) for b in body for I in fn.blocks[b] if I.dst}
            todo = [o.v for o in fn.blocks[blk][-1].ops if o.k == "reg"]
            seen = set()
            r = False
            while todo and not r:
                x = todo.pop()
                if x in seen or x not in defs:
                    continue
                seen.add(x)
                b, I = defs[x]
                if I.op == "phi":
                    r = b != hdr
                    continue
                todo += [o.v for o in I.ops if o.k == "reg"]
            self.pdec[key] = r
        return r

    def branch(self, st, fr, c, a, b):
        if isz(c):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        # controlling exit of an unrolled loop?
        act = st.loops[-1] if st.loops else None
        if act is not None and act.depth == len(st.frames) and act.mode == "unroll":
            body = fr.fn.loops[act.hdr]
            if (a in body) != (b in body):
                out = b if a in body else a
                if fr.fn.blocks[out][-1].op != "unreachable":
                    if isz(c):
                        act.symx = True
                    elif not self.pathdecided(fr.fn, act.hdr, fr.blk):
                        act.ctl = True
        if not isz(c):
            self.goto(st, fr, a if c else b)
            return
        ft = self.feasible(st, c)
        ff = self.feasible(st, z3.Not(c)) if ft else True
        if ft and ff:
            J = self.joinpoint(fr.fn, fr.blk) if self.joining else None
            n0 = len(st.pc)
            s2 = st.fork()
            if J is not None:
                nc = z3.simplify(z3.Not(c))
                s2.fact(nc)
                st.fact(c)
                depth = len(st.frames)
                self.goto(s2, s2.frames[-1], b)
                self.goto(st, fr, a)
                sa = self.run_to(st, depth, J)
                sb = self.run_to(s2, depth, J)
                if sa is None and sb is None:
                    raise PathEnd()
                if sa is None or sb is None:
                    if sa is None:
                        self.work.append(s2)
                        raise PathEnd()
                    return
                if not self.join(st, s2, n0, c, J, fr):
                    self.work.append(s2)
                return
            self.forks[self.here(st)] = self.forks.get(self.here(st), 0) + 1
            s2.fact(z3.simplify(z3.Not(c)))
            s2.trail.append((self.here(s2), False))
            f2 = s2.frames[-1]
            try:
                self.goto(s2, f2, b)
                self.work.append(s2)
            except PathEnd:
                self.paths += 1
            except Resolve:
                f2.ip -= 1
                self.work.append(s2)
            st.fact(c)
            st.trail.append((self.here(st), True))
            self.goto(st, fr, a)
            return
        if ft:
            st.fact(c)
            self.goto(st, fr, a)
        else:
            st.fact(z3.simplify(z3.Not(c)))
            self.goto(st, fr, b)

    def i_switch(self, st, fr, I):
        v = self.toint(st, self.ev(st, I.ops[0]))
        d, cs = I.x
        if not isz(v):
            act = st.loops[-1] if st.loops else None
            for cv, l in cs:
                if cv == v:
                    self.goto(st, fr, l)
                    return
            self.goto(st, fr, d)
            return
        rest = []
        for cv, l in cs:
            c = v == cv
            if self.feasible(st, c):
                s2 = st.fork()
                s2.fact(c)
                try:
                    self.goto(s2, s2.frames[-1], l)
                    self.work.append(s2)
                except PathEnd:
                    self.paths += 1
            rest.append(v != cv)
        c = z3.And(*rest) if rest else z3.BoolVal(True)
        if not self.feasible(st, c):
            raise PathEnd()
        st.fact(c)
        self.goto(st, fr, d)

    def i_unreachable(self, st, fr, I):
        self.oblig(st, False, "unreachable code reached", "unreachable")
        raise PathEnd()

    def i_ret(self, st, fr, I):
        v = self.ev(st, I.ops[0]) if I.ops else None
        depth = len(st.frames)
        while st.loops and st.loops[-1].depth == depth:
            st.loops.pop()
        for n in fr.allocas:
            if n in st.mem:
                o = self.wobj(st, n)
                o.freed = True
        st.frames.pop()
        if fr.retcb:
            fr.retcb(self, st, v)
            return
        if st.frames and fr.dst:
            st.frames[-1].regs[fr.dst] = v
        if st.frames:
            c = st.frames[-1]
            J = c.fn.blocks[c.blk][c.ip - 1]
            if J.op == "invoke":
                self.goto(st, c, J.lab[0])

    # exceptions: only a throw of the executed code (or of a stand-in) unwinds
    def i_invoke(self, st, fr, I):
        d = len(st.frames)
        b, ip = fr.blk, fr.ip
        self.i_call(st, fr, I)
        if len(st.frames) == d and st.frames[-1] is fr and (fr.blk, fr.ip) == (b, ip):
            self.goto(st, fr, I.lab[0])

    def unwind(self, st, exc):
        """exc: (object, type); False when nothing catches or cleans up"""
        if not any(f.fn.blocks[f.blk][f.ip - 1].op == "invoke" for f in st.frames):
            return False
        while True:
            fr = st.frames[-1]
            J = fr.fn.blocks[fr.blk][fr.ip - 1]
            if J.op == "invoke":
                st.g = dict(st.g)
                st.g["exc"] = exc
                self.goto(st, fr, J.lab[1])
                return True
            if fr.retcb:
                raise Unsupported("exception through a contract")
            depth = len(st.frames)
            while st.loops and st.loops[-1].depth == depth:
                st.loops.pop()
            for n in fr.allocas:
                if n in st.mem:
                    self.wobj(st, n).freed = True
            st.frames.pop()

    def i_landingpad(self, st, fr, I):
        obj, ty = st.g["exc"]
        self.setr(fr, I, Agg([obj, self.typeid(ty)]))

    def typeid(self, ty):
        return 1 + self.exctypes.setdefault(ty, len(self.exctypes))

    def i_resume(self, st, fr, I):
        v = self.ev(st, I.ops[0])
        ty = [t for t, k in self.exctypes.items() if k + 1 == v.e[1]][0]
        if not self.unwind(st, (v.e[0], ty)):
            self.oblig(st, False, "no exception leaves the function", "exception")
            raise PathEnd()

    def i_alloca(self, st, fr, I):
        n = 1
        if I.ops:
            n = self.ev(st, I.ops[0])
        size = imul(self.m.size(I.ty), n)
        name = self.newobj(st, "%s:%s" % (fr.fn.name if len(fr.fn.name) < 40 else fr.fn.name[-40:], I.dst), size, "stack",
                           I.ty if not isz(n) and n == 1 else None)
        fr.allocas.append(name)
        self.setr(fr, I, Ptr(name, 0))

    def i_load(self, st, fr, I):
        p = self.evp(st, I.ops[0])
        self.setr(fr, I, self.load_ite(st, p, I.ty) if isinstance(p, PIte) else self.load(st, p, I.ty))

    def load_ite(self, st, p, ty):
        p = self.known(st, p)
        if not isinstance(p, PIte):
            return self.load(st, p, ty)
        n0 = len(st.pc)
        vals = []
        for cc, q in ((p.c, p.a), (z3.Not(p.c), p.b)):
            pc, facts = st.pc, st.facts
            st.pc, st.facts = list(pc), set(facts)
            st.fact(cc)
            try:
                vals.append(self.load_ite(st, q, ty))
            finally:
                new = st.pc[len(pc):]
                st.pc, st.facts = pc, facts
            for f in new:
                if not f.eq(cc):
                    st.fact(z3.Implies(cc, f))
        a, b = vals
        if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
            return a if veq(a, b) else PIte(p.c, a, b)
        try:
            return self.selv(st, p.c, a, b)
        except Unsupported:
            raise Resolve(p.c)

    def i_store(self, st, fr, I):
        v = self.ev(st, I.ops[0])
        p = self.ev(st, I.ops[1])
        ty = I.ops[0].ty
        if v is UNDEF:
            return
        if isinstance(v, Agg):
            self.store_agg(st, p, ty, v)
            return
        self.store(st, p, self.m.size(ty), v)

    def store_agg(self, st, p, ty, v):
        for i, e in enumerate(v.e):
            if ty.k == "struct":
                t, o = ty.el[i], self.m.field(ty, i)
            else:
                t, o = ty.el, i * self.m.size(ty.el)
            q = Ptr(p.obj, self.offadd(p.off, o), p.hint)
            if isinstance(e, Agg):
                self.store_agg(st, q, t, e)
            elif e is not UNDEF:
                self.store(st, q, self.m.size(t), e)

    def gep_ite(self, st, p, bt, rest, ops):
        if isinstance(p, PIte):
            return PIte(p.c, self.gep_ite(st, p.a, bt, rest, ops), self.gep_ite(st, p.b, bt, rest, ops))
        return self.gep(st, bt, [p] + rest, ops)

    def i_getelementptr(self, st, fr, I):
        p = self.evp(st, I.ops[0])
        if isinstance(p, PIte):
            self.setr(fr, I, self.gep_ite(st, p, I.ty, [self.ev(st, o) for o in I.ops[1:]], I.ops))
            return
        self.setr(fr, I, self.gep(st, I.ty, [self.ev(st, o) for o in I.ops], I.ops))

    def binops(self, st, fr, I):
        a = self.ev(st, I.ops[0])
        b = self.ev(st, I.ops[1])
        if I.ty.k == "vec":
            a = a.e if isinstance(a, Vec) else [a] * I.ty.n
            b = b.e if isinstance(b, Vec) else [b] * I.ty.n
            self.setr(fr, I, Vec([self.bin1(st, I, I.op, I.ty.el, x, y) for x, y in zip(a, b)]))
            return
        self.setr(fr, I, self.bin1(st, I, I.op, I.ty, a, b))

    i_add = i_sub = i_mul = i_sdiv = i_udiv = i_srem = i_urem = i_shl = i_lshr = i_ashr = i_and = i_or = i_xor = binops
    i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = binops

    def bin1(self, st, I, op, ty, a, b):
        if op[0] == "f":
            return self.fbin(st, op, self.tofp(st, a), self.tofp(st, b))
        w = ty.n
        fl = I.x if isinstance(I.x, set) else set()
        if w == 1:
            a = self.cast_load(st, a, ty) if not (isinstance(a, bool) or z3.is_bool(a)) else a
            b = self.cast_load(st, b, ty) if not (isinstance(b, bool) or z3.is_bool(b)) else b
            if op in ("and", "mul"):
                return band(a, b)
            if op == "or":
                return bor(a, b)
            if op in ("xor", "add", "sub"):
                return bxor(a, b)
            raise Unsupported("i1 %s" % op)
        if op == "and" and isinstance(a, Cat) and len(a.p) == 1 and isinstance(a.p[0][1], Ptr) and b == 1 and not isz(b):
            if isinstance(a.p[0][1].obj, tuple) or (not isz(a.p[0][1].off) and not isinstance(a.p[0][1].off, tuple) and a.p[0][1].off % 8 == 0):
                return 0
        # byte shuffles on composites
        if isinstance(a, Cat) or isinstance(b, Cat):
            r = self.catop(st, op, w, a, b)
            if r is not None:
                return r
        if op in ("sub",) and isinstance(a, Cat) and isinstance(b, Cat):
            pa, pb = a.p[0][1], b.p[0][1]
            if isinstance(pa, Ptr) and isinstance(pb, Ptr):
                if pa.obj != pb.obj:
                    raise Unsupported("difference of unrelated pointers")
                return isub(pa.off, pb.off)
        a, b = self.toint(st, a, w), self.toint(st, b, w)
        if op == "add":
            return self.fit(st, iadd(a, b), w, fl, "add")
        if op == "sub":
            return self.fit(st, isub(a, b), w, fl, "sub")
        if op == "mul":
            return self.fit(st, imul(a, b), w, fl, "mul")
        if op in ("sdiv", "srem"):
            nz = bnot(ieq(b, 0))
            if nz is not True:
                self.oblig(st, nz, "division by zero", "divzero")
                if nz is False:
                    raise PathEnd()
            q = self.tdiv(st, a, b)
            if op == "sdiv":
                return self.fit(st, q, w, {"nsw"}, "sdiv")
            if not isz(b) and isz(a):
                n = abs(b)
                lo, hi = self.rng(a)
                if lo is not None and lo >= 0:
                    return a % n
                r = z3.If(a >= 0, a % n, -((-a) % n))
                self.setrng(r, -(n - 1), n - 1)
                return r
            return isub(a, imul(b, q))
        if op in ("udiv", "urem"):
            nz = bnot(ieq(b, 0))
            if nz is not True:
                self.oblig(st, nz, "division by zero", "divzero")
                if nz is False:
                    raise PathEnd()
            ua, ub = self.u(st, a, w), self.u(st, b, w)
            q = self.tdiv(st, ua, ub)
            return self.from_u(st, q if op == "udiv" else isub(ua, imul(ub, q)), w)
        if op == "shl":
            if isz(b):
                raise Unsupported("variable shift")
            if isz(a) and b % 8 == 0 and 8 <= b < w and (w - b) in (8, 16, 32) and "nsw" not in fl:
                lo, hi = self.rng(a)
                if lo is not None and hi is not None and 0 <= lo and hi < (1 << (w - b)):
                    return Cat([(b // 8, 0), ((w - b) // 8, self.from_u(st, a, w - b))])
            return self.fit(st, imul(a, 1 << b), w, fl, "shl")
        if op == "lshr":
            if isz(b):
                raise Unsupported("variable shift")
            return self.from_u(st, idivf(self.u(st, a, w), 1 << b), w)
        if op == "ashr":
            if isz(b):
                raise Unsupported("variable shift")
            return idivf(a, 1 << b)
        if op in ("and", "or", "xor"):
            return self.bitop(st, op, w, a, b)
        raise Unsupported(op)

    def bitop(self, st, op, w, a, b):
        M = (1 << w) - 1
        sg = lambda x: x - (1 << w) if x >= (1 << (w - 1)) else x
        if not isz(a) and not isz(b):
            f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op]
            return sg(f(a & M, b & M))
        p, q = b01(a), b01(b)
        if p is not None and q is not None:
            c = {"and": band, "or": bor, "xor": bxor}[op](p, q)
            return iite(c, 1, 0)
        if not isz(a):
            a, b = b, a
        if not isz(b):
            if op == "xor" and b == -1:
                return isub(-1, a)
            if op == "xor" and b == 0 or op == "or" and b == 0:
                return a
            if op == "and":
                if b == -1:
                    return a
                if b == 0:
                    return 0
                ub = b & M
                if ub & (ub + 1) == 0:
                    return imod(a, ub + 1)
                # high mask ~(2^k-1)
                inv = (~b) & M
                if inv & (inv + 1) == 0:
                    return isub(a, imod(a, inv + 1))
                # single contiguous field: (a >> s) % n << s
                s = (ub & -ub).bit_length() - 1
                v = ub >> s
                if v & (v + 1) == 0:
                    return imul(imod(idivf(a, 1 << s), v + 1), 1 << s)
            if op == "or":
                pass
        ra, rb = self.rng(a), self.rng(b)
        f = {"and": BAND, "or": BOR, "xor": BXOR}[op]
        t = f(zi(a), zi(b))
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if None not in ra and None not in rb and ra[0] >= 0 and rb[0] >= 0:
            m = max(ra[1], rb[1])
            hi = (1 << m.bit_length()) - 1
            lo = 0
            if op == "and":
                hi = min(ra[1], rb[1])
        self.setrng(t, lo, hi)
        st.fact(t >= lo)
        st.fact(t <= hi)
        if op == "or":
            st.fact(z3.Implies(zi(a) == 0, t == zi(b)))
            st.fact(z3.Implies(zi(b) == 0, t == zi(a)))
            st.fact(z3.Implies(z3.And(zi(a) >= 0, zi(b) >= 0), z3.And(t >= zi(a), t >= zi(b), t <= zi(a) + zi(b))))
            st.fact((t == 0) == z3.And(zi(a) == 0, zi(b) == 0))
            st.fact((t < 0) == z3.Or(zi(a) < 0, zi(b) < 0))
        if op == "xor":
            st.fact((t == 0) == (zi(a) == zi(b)))
            st.fact((t < 0) == z3.Xor(zi(a) < 0, zi(b) < 0))
        if op == "and":
            st.fact(z3.Implies(z3.Or(zi(a) == 0, zi(b) == 0), t == 0))
            st.fact((t < 0) == z3.And(zi(a) < 0, zi(b) < 0))
        return t

    def catop(self, st, op, w, a, b):
        W = w // 8

        def parts(x):
            if isinstance(x, Cat):
                return x.p
            return None
        if op in ("lshr", "shl", "ashr") and isinstance(a, Cat) and not isz(b) and b % 8 == 0:
            k = b // 8
            if op in ("lshr", "ashr"):
                hi = self.subval(W, a, k, W - k)
                if op == "ashr" and not isinstance(hi, (Cat, XR)):
                    return None
                ps = hi.p if isinstance(hi, Cat) else [(W - k, hi)]
                return Cat(list(ps) + [(k, 0)])
            lo = self.subval(W, a, 0, W - k)
            ps = lo.p if isinstance(lo, Cat) else [(W - k, lo)]
            return Cat([(k, 0)] + list(ps))
        if op == "or" and isinstance(a, Cat) != isinstance(b, Cat):
            x, y = (a, b) if isinstance(a, Cat) else (b, a)
            if isinstance(x.p[0][1], int) and x.p[0][1] == 0 and not isinstance(x.p[0][1], bool):
                q = x.p[0][0]
                if isinstance(y, (int,)) or (isz(y) and z3.is_int(y)):
                    lo, hi = self.rng(y)
                    if self.fast or lo is not None and hi is not None and lo >= 0 and hi < (1 << (8 * q)) or \
                            isz(y) and self.provable(st, z3.And(0 <= y, y < (1 << (8 * q)))):
                        return Cat([(q, self.from_u(st, y, 8 * q))] + list(x.p[1:]))
        if op == "or" and isinstance(a, Cat) and isinstance(b, Cat):
            # disjoint merge on aligned parts
            out = []
            pa, pb = list(a.p), list(b.p)
            cuts = set()
            q = 0
            for n, _ in pa:
                q += n
                cuts.add(q)
            q = 0
            for n, _ in pb:
                q += n
                cuts.add(q)
            q = 0
            for c in sorted(cuts):
                x, y = self.subval(W, a, q, c - q), self.subval(W, b, q, c - q)
                if not isz(x) and isinstance(x, int) and x == 0:
                    out.append((c - q, y))
                elif not isz(y) and isinstance(y, int) and y == 0:
                    out.append((c - q, x))
                else:
                    return None
                q = c
            return Cat(out)
        return None

    def fbin(self, st, op, a, b):
        if op == "fadd":
            return xadd(a, b)
        if op == "fsub":
            return xsub(a, b)
        if op == "fmul":
            return xmul(a, b)
        if op == "fdiv":
            if b.plain() and a.plain() and isz(b.r) and z3.is_app_of(b.r, z3.Z3_OP_DIV) and z3.is_rational_value(b.r.arg(0)) \
                    and b.r.arg(0).as_fraction() != 0 and self.mayzero(st, b.r.arg(1)) is False:
                # a / (c / y) = (a / c) * y for y != 0, c != 0
                return XR(rmul(rdiv(a.r, b.r.arg(0).as_fraction()), b.r.arg(1)))
            bz = self.mayzero(st, b.r)
            return xdiv(a, b, bz)
        raise Unsupported("frem")

    def sign(self, t):
        """(t >= 0 surely, t > 0 surely) from the shape of the term and the ranges of the drawn values"""
        if not isz(t):
            return (t >= 0, t > 0)
        i = t.get_id()
        r = self.signs.get(i)
        if r is None:
            r = self.signs[i] = self._sign(t)
            self.keep.append(t)
        return r

    def _sign(self, t):
        k = t.decl().kind()
        ch = t.children()
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return (f >= 0, f > 0)
        if k == z3.Z3_OP_ADD:
            s = [self.sign(c) for c in ch]
            nn = all(a for a, _ in s)
            return (nn, nn and any(b for _, b in s))
        if k == z3.Z3_OP_MUL:
            nn = pos = True
            odd = {}
            for c in ch:
                odd.setdefault(c.get_id(), [c, 0])[1] += 1
            for c, n in odd.values():
                a, b = self.sign(c)
                nn = nn and (a or n % 2 == 0)
                pos = pos and b
            return (nn, nn and pos)
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and ch[1].as_long() % 2 == 0:
            return (True, self.sign(ch[0])[1])
        if k == z3.Z3_OP_DIV:
            (a, b), (c, d) = self.sign(ch[0]), self.sign(ch[1])
            return (a and d, b and d)
        if k == z3.Z3_OP_ITE:
            x, y = self.sign(ch[1]), self.sign(ch[2])
            if x[0] and y[0]:
                return (True, x[1] and y[1])
            c = ch[0]
            # absolute value
            neg = False
            while z3.is_not(c):
                c, neg = c.arg(0), not neg
            up = z3.is_ge(c) or z3.is_gt(c)
            if up or z3.is_le(c) or z3.is_lt(c):
                u, v = c.arg(0), c.arg(1)
                if z3.is_rational_value(u) and u.as_fraction() == 0:
                    u, v, up = v, u, not up
                if z3.is_rational_value(v) and v.as_fraction() == 0:
                    up = up != neg
                    if (ch[1] if up else ch[2]).eq(u) and z3.is_rational_value(z3.simplify(ch[1] + ch[2], som=True)) and \
                            z3.simplify(ch[1] + ch[2], som=True).as_fraction() == 0:
                        return (True, False)
            c = ch[0]
            # maximum
            if (z3.is_le(c) or z3.is_lt(c)) and c.arg(0).eq(ch[2]) and c.arg(1).eq(ch[1]) and (x[0] or y[0]):
                return (True, x[1] or y[1])
            if (z3.is_ge(c) or z3.is_gt(c)) and c.arg(0).eq(ch[1]) and c.arg(1).eq(ch[2]) and (x[0] or y[0]):
                return (True, x[1] or y[1])
            return (False, False)
        if k == z3.Z3_OP_TO_REAL:
            return self.sign(ch[0])
        if k == z3.Z3_OP_UNINTERPRETED:
            if t.decl().eq(SQRT):
                return (True, self.sign(ch[0])[1])
            lo = self.rlo.get(t.get_id())
            if lo is not None:
                return (lo >= 0, lo > 0)
        return (False, False)

    def mayzero(self, st, r):
        if not isz(r):
            return r == 0
        c = z3.simplify(r == 0)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        if self.sign(r)[1]:
            return False
        # a hard question that was not decided before is left open: the division then keeps its exceptional results
        t0 = time.time()
        w = self.zerocost.get(c.get_id(), 0)
        if w > 2:
            return c
        if self.check(st.pc, [c], self.feas_ms) == z3.unsat:
            return False
        self.keep.append(c)
        self.zerocost[c.get_id()] = w + time.time() - t0
        return c

    def i_fneg(self, st, fr, I):
        v = self.ev(st, I.ops[0])
        if isinstance(v, Vec):
            self.setr(fr, I, Vec([xneg(self.tofp(st, e)) for e in v.e]))
        else:
            self.setr(fr, I, xneg(self.tofp(st, v)))

    def i_icmp(self, st, fr, I):
        a, b = self.ev(st, I.ops[0]), self.ev(st, I.ops[1])
        self.setr(fr, I, self.icmp(st, I.x, I.ty, a, b))

    def icmp(self, st, pr, ty, a, b):
        if isinstance(a, Cat) and len(a.p) == 1 and isinstance(a.p[0][1], Ptr):
            a = a.p[0][1]
        if isinstance(b, Cat) and len(b.p) == 1 and isinstance(b.p[0][1], Ptr):
            b = b.p[0][1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = NULL if not isz(a) and a == 0 else a
            if not isinstance(b, Ptr):
                b = NULL if not isz(b) and b == 0 else b
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                if a is UNDEF or b is UNDEF:
                    raise Unsupported("compare of undef pointer at %s" % self.here(st))
                raise Unsupported("pointer/int compare")
            if a.obj != b.obj:
                if pr == "eq":
                    return False
                if pr == "ne":
                    return True
                raise Unsupported("ordering of unrelated pointers %r %r at %s" % (a, b, self.here(st)))
            if isinstance(a.off, tuple) or isinstance(b.off, tuple):
                if isinstance(a.off, tuple) and isinstance(b.off, tuple):
                    e = band(a.off[1] == b.off[1], *[ieq(x, y) for x, y in zip(a.off[2:], b.off[2:])])
                    if pr == "eq":
                        return e
                    if pr == "ne":
                        return bnot(e)
                raise Unsupported("keyed pointer compare")
            a, b = a.off, b.off
            pr = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pr, pr)
        elif ty.k == "int" and ty.n == 1:
            if pr == "eq":
                return beq(a, b)
            if pr == "ne":
                return bxor(a, b)
            if pr == "ult":
                return band(bnot(a), b)
            if pr == "ugt":
                return band(a, bnot(b))
            raise Unsupported("i1 compare %s" % pr)
        elif ty.k == "vec":
            raise Unsupported("vector icmp")
        if isinstance(a, Cat) and isinstance(b, Cat) and pr in ("eq", "ne"):
            W = self.m.size(ty)
            e = True
            try:
                for q in range(0, W, 4):
                    x, y = self.subval(W, a, q, 4), self.subval(W, b, q, 4)
                    e = band(e, self.ident(x, y))
                return e if pr == "eq" else bnot(e)
            except Unsupported:
                pass
        w = ty.n if ty.k == "int" else 64
        a, b = self.toint(st, a, w), self.toint(st, b, w)
        if pr[0] == "u":
            a, b = self.u(st, a, w), self.u(st, b, w)
        p = pr[1:] if pr[0] in "us" else pr
        if p == "lt":
            return ilt(a, b)
        if p == "le":
            return ile(a, b)
        if p == "gt":
            return ilt(b, a)
        if p == "ge":
            return ile(b, a)
        if p == "eq":
            return ieq(a, b)
        if p == "ne":
            return bnot(ieq(a, b))
        raise Unsupported("icmp %s" % pr)

    def i_fcmp(self, st, fr, I):
        a, b = self.ev(st, I.ops[0]), self.ev(st, I.ops[1])
        self.setr(fr, I, self.fcmp(st, I.x, self.tofp(st, a), self.tofp(st, b)))

    def fcmp(self, st, pr, a, b):
        un = bor(a.nan, b.nan)
        if pr == "ord":
            return bnot(un)
        if pr == "uno":
            return un
        if pr == "true":
            return True
        if pr == "false":
            return False
        o = {"lt": lambda: xlt(a, b), "gt": lambda: xlt(b, a), "le": lambda: xle(a, b), "ge": lambda: xle(b, a),
             "eq": lambda: xeq(a, b), "ne": lambda: band(bnot(un), bnot(xeq(a, b)))}[pr[1:]]()
        if pr[0] == "o":
            return o
        return bor(un, o)

    def i_select(self, st, fr, I):
        c = self.ev(st, I.ops[0])
        a, b = self.evp(st, I.ops[1]), self.evp(st, I.ops[2])
        if isinstance(c, Vec):
            self.setr(fr, I, Vec([self.selv(st, x, y, z) for x, y, z in zip(c.e, a.e, b.e)]))
            return
        if isz(c):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if not isz(c):
            self.setr(fr, I, a if c else b)
            return
        if self.joining and isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
            self.setr(fr, I, a if veq(a, b) else PIte(c, a, b))
            return
        try:
            self.setr(fr, I, self.selv(st, c, a, b))
        except Unsupported:
            # fork
            ft, ff = self.feasible(st, c), self.feasible(st, z3.Not(c))
            if ft and ff:
                s2 = st.fork()
                s2.fact(z3.Not(c))
                self.setr(s2.frames[-1], I, b)
                self.work.append(s2)
            if ft:
                st.fact(c)
                self.setr(fr, I, a)
            else:
                st.fact(z3.Not(c))
                self.setr(fr, I, b)

    def selv(self, st, c, a, b):
        if veq(a, b):
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported("select pointers")
        if isinstance(a, (Vec, Agg)) and isinstance(b, (Vec, Agg)):
            return type(a)([self.selv(st, c, x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, Cat) or isinstance(b, Cat):
            a, b = self.toint(st, a), self.toint(st, b)
        return self.merge(c, a, b)

    def castv(self, st, fr, I, f):
        v = self.ev(st, I.ops[0])
        if isinstance(v, Vec):
            self.setr(fr, I, Vec([f(e, I.ops[0].ty.el, I.ty.el) for e in v.e]))
        else:
            self.setr(fr, I, f(v, I.ops[0].ty, I.ty))

    def i_trunc(self, st, fr, I):
        def f(v, a, b):
            if isinstance(v, Cat):
                if b.n % 8 == 0:
                    r = self.subval(a.n // 8, v, 0, b.n // 8)
                    return Cat([(b.n // 8, r)]) if isinstance(r, (XR, Ptr)) else r
                v = self.toint(st, v)
            if v is UNDEF:
                return v
            if b.n == 1:
                q = b01(v)
                return q if q is not None else bnot(ieq(imod(v, 2), 0))
            if isinstance(v, bool) or z3.is_bool(v):
                v = iite(v, 1, 0)
            return self.fit(st, v, b.n, set(), "trunc")
        self.castv(st, fr, I, f)

    def i_zext(self, st, fr, I):
        def f(v, a, b):
            if isinstance(v, bool) or z3.is_bool(v):
                return iite(v, 1, 0)
            if v is UNDEF:
                return v
            if isinstance(v, Cat):
                return Cat(list(v.p) + [((b.n - a.n) // 8, 0)])
            return self.u(st, v, a.n)
        self.castv(st, fr, I, f)

    def i_sext(self, st, fr, I):
        def f(v, a, b):
            if isinstance(v, bool) or z3.is_bool(v):
                return iite(v, -1, 0)
            if isinstance(v, Cat):
                return self.toint(st, v)
            return v
        self.castv(st, fr, I, f)

    def i_fptrunc(self, st, fr, I):
        self.castv(st, fr, I, lambda v, a, b: self.tofp(st, v))

    i_fpext = i_fptrunc

    def rtrunc(self, r):
        """truncate real towards zero"""
        if not isz(r):
            n = abs(r.numerator) // r.denominator
            return n if r >= 0 else -n
        if r.decl().kind() == z3.Z3_OP_TO_REAL:
            return r.arg(0)
        if self.rnonneg(r):
            return z3.ToInt(r)
        return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))

    def rnonneg(self, r):
        """the real term is structurally not negative"""
        if not isz(r):
            return r >= 0
        k = r.decl().kind()
        if z3.is_rational_value(r):
            return r.numerator_as_long() >= 0
        if k == z3.Z3_OP_TO_REAL:
            lo = self.rng(r.arg(0))[0]
            return lo is not None and lo >= 0
        if k == z3.Z3_OP_UNINTERPRETED:
            return r.decl().eq(SQRT)
        if k == z3.Z3_OP_ADD:
            return all(self.rnonneg(c) for c in r.children())
        if k == z3.Z3_OP_MUL:
            ch = [c for c in r.children() if not self.rnonneg(c)]
            while ch:
                c = ch.pop()
                for j, d in enumerate(ch):
                    if d.eq(c):
                        del ch[j]
                        break
                else:
                    return False
            return True
        if k == z3.Z3_OP_ITE:
            return self.rnonneg(r.arg(1)) and self.rnonneg(r.arg(2))
        return False

    def rround(self, r):
        if not isz(r):
            x = abs(r) + Fraction(1, 2)
            n = x.numerator // x.denominator
            return n if r >= 0 else -n
        if r.decl().kind() == z3.Z3_OP_TO_REAL:
            return r.arg(0)
        h = z3.RealVal("1/2")
        return z3.If(r >= 0, z3.ToInt(r + h), -z3.ToInt(h - r))

    def f2i(self, st, v, w, how, what, unsigned=False):
        v = self.tofp(st, v)
        t = self.rtrunc(v.r) if how == "trunc" else self.rround(v.r)
        lo, hi = (0, (1 << w) - 1) if unsigned else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        ok = band(bnot(v.nan), bnot(v.inf), ile(lo, t), ile(t, hi))
        if isz(t) and self.inrange(t, lo, hi) and v.plain():
            ok = True
        if ok is not True:
            self.oblig(st, ok, "float to int conversion in range (%s)" % what, "fpconv")
        if isz(t):
            self.setrng(t, lo, hi)
        return self.from_u(st, t, w) if unsigned else t

    def i_fptosi(self, st, fr, I):
        self.castv(st, fr, I, lambda v, a, b: self.f2i(st, v, b.n, "trunc", "fptosi"))

    def i_fptoui(self, st, fr, I):
        self.castv(st, fr, I, lambda v, a, b: self.f2i(st, v, b.n, "trunc", "fptoui", True))

    def i_sitofp(self, st, fr, I):
        self.castv(st, fr, I, lambda v, a, b: XR(toreal(self.toint(st, v, a.n))))

    def i_uitofp(self, st, fr, I):
        self.castv(st, fr, I, lambda v, a, b: XR(toreal(self.u(st, self.toint(st, v, a.n), a.n) if a.n > 1 else self.toint(st, v))))

    def i_ptrtoint(self, st, fr, I):
        v = self.ev(st, I.ops[0])
        self.setr(fr, I, Cat([(8, v)]))

    def i_inttoptr(self, st, fr, I):
        v = self.ev(st, I.ops[0])
        if isinstance(v, Cat) and isinstance(v.p[0][1], Ptr):
            self.setr(fr, I, v.p[0][1])
        elif not isz(v) and v == 0:
            self.setr(fr, I, NULL)
        else:
            raise Unsupported("inttoptr")

    def i_bitcast(self, st, fr, I):
        v = self.ev(st, I.ops[0])
        a, b = I.ops[0].ty, I.ty
        if a.k == b.k:
            self.setr(fr, I, v)
            return
        if b.k == "int":
            n = b.n // 8
            if isinstance(v, Vec):
                es = n // len(v.e)
                self.setr(fr, I, Cat([(es, e) for e in v.e]))
            else:
                self.setr(fr, I, Cat([(n, v)]))
            return
        if isinstance(v, Cat):
            if b.k == "vec":
                es = self.m.size(b.el)
                self.setr(fr, I, Vec([self.cast_load(st, self.subval(self.m.size(b), v, i * es, es), b.el) for i in range(b.n)]))
                return
            if len(v.p) == 1:
                self.setr(fr, I, v.p[0][1])
                return
        if b.k == "vec" and a.k in ("f64", "int"):
            es = self.m.size(b.el)
            if isinstance(v, (int,)) and v == 0:
                self.setr(fr, I, self.zero(b))
                return
            self.setr(fr, I, Vec([self.subval(self.m.size(b), v, i * es, es) for i in range(b.n)]))
            return
        if isinstance(v, Vec) and b.k == "f64":
            self.setr(fr, I, Cat([(8 // len(v.e), e) for e in v.e]))
            return
        if isinstance(v, int) and v == 0 and b.k in ("f32", "f64"):
            self.setr(fr, I, XR(Fraction(0)))
            return
        raise Unsupported("bitcast %r -> %r" % (a, b))

    i_addrspacecast = i_bitcast

    def i_freeze(self, st, fr, I):
        v = self.ev(st, I.ops[0])
        if v is UNDEF:
            v = self.fresh(st, "frozen", I.ty)
        self.setr(fr, I, v)

    def i_extractvalue(self, st, fr, I):
        v = self.ev(st, I.ops[0])
        for i in I.x:
            v = v.e[i] if v is not UNDEF else UNDEF
        self.setr(fr, I, v)

    def i_insertvalue(self, st, fr, I):
        a = self.ev(st, I.ops[0])
        b = self.ev(st, I.ops[1])

        def ins(v, ty, idx):
            if not idx:
                return b
            n = len(ty.el) if ty.k == "struct" else ty.n
            e = list(v.e) if isinstance(v, Agg) else [UNDEF] * n
            t = ty.el[idx[0]] if ty.k == "struct" else ty.el
            e[idx[0]] = ins(e[idx[0]], t, idx[1:])
            return Agg(e)
        self.setr(fr, I, ins(a, I.ops[0].ty, I.x))

    def i_extractelement(self, st, fr, I):
        v = self.ev(st, I.ops[0])
        i = self.ev(st, I.ops[1])
        if isz(i):
            raise Unsupported("extractelement symbolic")
        if isinstance(v, Cat):
            es = self.m.size(I.ops[0].ty.el)
            self.setr(fr, I, self.subval(self.m.size(I.ops[0].ty), v, es * i, es))
            return
        self.setr(fr, I, v.e[i] if v is not UNDEF else UNDEF)

    def i_insertelement(self, st, fr, I):
        v = self.ev(st, I.ops[0])
        x = self.ev(st, I.ops[1])
        i = self.ev(st, I.ops[2])
        e = list(v.e) if isinstance(v, Vec) else [UNDEF] * I.ty.n
        e[i] = x
        self.setr(fr, I, Vec(e))

    def i_shufflevector(self, st, fr, I):
        a, b = self.ev(st, I.ops[0]), self.ev(st, I.ops[1])
        n = I.ops[0].ty.n
        ea = list(a.e) if isinstance(a, Vec) else [UNDEF] * n
        eb = list(b.e) if isinstance(b, Vec) else [UNDEF] * n
        al = ea + eb
        m = I.ops[2]
        idx = []
        if m.k == "agg":
            for x in m.v:
                idx.append(x.v if x.k == "int" else None)
        elif m.k == "zero":
            idx = [0] * m.ty.n
        else:
            idx = [None] * m.ty.n
        self.setr(fr, I, Vec([al[i] if i is not None else UNDEF for i in idx]))

    def i_atomicrmw(self, st, fr, I):
        p = self.ev(st, I.ops[0])
        b = self.ev(st, I.ops[1])
        ty = I.ops[1].ty
        o = self.load(st, p, ty)
        if I.x == "add":
            n = self.fit(st, iadd(o, b), ty.n, set(), "atomic add")
        elif I.x == "sub":
            n = self.fit(st, isub(o, b), ty.n, set(), "atomic sub")
        elif I.x == "xchg":
            n = b
        else:
            raise Unsupported("atomicrmw %s" % I.x)
        self.store(st, p, self.m.size(ty), n)
        self.setr(fr, I, o)

    # ------------------------------------------------------------ calls
    def demangle(self, n):
        return self.dem.get(n, n)

    def i_call(self, st, fr, I):
        cal = I.x
        if cal.k == "asm":
            if "fence" in cal.v or cal.v in ('""',):
                return
            raise Unsupported("inline asm %s" % cal.v)
        f = self.ev(st, cal)
        if not isinstance(f, Ptr) or not isinstance(f.obj, tuple):
            if isinstance(f, Ptr) and f.obj is None:
                self.oblig(st, False, "call through null pointer", "memory")
                raise PathEnd()
            raise Unsupported("indirect call to unknown target at %s" % self.here(st))
        name = f.obj[1]
        args = [self.ev(st, o) for o in I.ops]
        # byval copies
        for j, o in enumerate(I.ops):
            if isinstance(o.x, ir.Ty):
                ty = o.x
                n = self.newobj(st, "byval:%s:%d" % (name[-30:], j), self.m.size(ty), "stack", ty)
                self.memcpy(st, Ptr(n, 0), args[j], self.m.size(ty))
                args[j] = Ptr(n, 0)
        self.call(st, fr, I, name, args)

    def call(self, st, fr, I, name, args):
        dem = self.demangle(name)
        for rx, h in self.contracts:
            if rx.search(dem):
                if h is None:
                    break
                if isinstance(h, str):
                    # the contract is a function of the harness with the same parameters
                    fn = self.m.fns.get(h)
                    if fn is None or len(fn.params) != len(args) or name == h:
                        break
                    self.contracts_used[dem] = self.contracts_used.get(dem, 0) + 1
                    self.push(st, fn, args, I.dst, "%s@%d" % (fr.blk, fr.ip))
                    return
                self.contracts_used[dem] = self.contracts_used.get(dem, 0) + 1
                r = h(self, st, I, args)
                if r is not NotImplemented:
                    self.setr(fr, I, r)
                    return
                break
        h = self.models.get(name)
        if h is None and name.startswith("llvm."):
            for pre, hh in self.modelmod.INTR:
                if name.startswith(pre):
                    h = hh
                    break
        if h is None:
            for rx, hh in self.rxmodels:
                if rx.search(dem):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, I, args)
            if r is not NotImplemented:
                if not name.startswith("llvm.") and not name.startswith("vc_"):
                    self.models_used[dem] = self.models_used.get(dem, 0) + 1
                self.setr(fr, I, r)
                return
        fn = self.m.fns.get(name)
        if fn is None:
            raise Unsupported("call to external function %s at %s" % (dem, self.here(st)))
        self.push(st, fn, args, I.dst, "%s@%d" % (fr.blk, fr.ip))

    def find_fn(self, dem):
        if self.bydem is None:
            self.bydem = {}
            for n in self.m.fns:
                self.bydem.setdefault(self.demangle(n), n)
        n = self.bydem.get(dem)
        return self.m.fns.get(n) if n else None

    def sub_run(self, st, fn, args, fast=False):
        """run a straight-line function to completion and return its value"""
        depth = len(st.frames)
        res = []
        self.push(st, fn, args, None, "sub:%s" % fn.name, lambda ex, s, v: res.append(v))
        o = self.fast
        self.fast = fast
        nw = len(self.work)
        no = len(self.obligs)
        try:
            while len(st.frames) > depth:
                fr = st.frames[-1]
                I = fr.fn.blocks[fr.blk][fr.ip]
                fr.ip += 1
                getattr(self, "i_" + I.op)(st, fr, I)
        finally:
            self.fast = o
        if len(self.work) != nw:
            raise Unsupported("%s forks" % fn.name)
        if fast:
            del self.obligs[no:]
        return res[0]

    def push(self, st, fn, args, dst, site, retcb=None):
        if len(st.frames) > 60:
            raise Unsupported("recursion depth")
        self.fns_used[fn.name] = 1
        nf = Frame(fn, site, dst)
        nf.retcb = retcb
        for (pn, pt, _), a in zip(fn.params, args):
            nf.regs[pn] = a
        st.frames.append(nf)


class View:
    """what invariant templates may look at"""

    def __init__(self, ex, st, act, li, vals, k):
        self.ex, self.st, self.act, self.li, self.vals, self.k = ex, st, act, li, vals, k
        self.key = act.key
        self.levels = []
        self.ptrs = []
        for a in st.loops:
            if a.mode != "cut":
                continue
            l2 = ex.loops[a.key]
            if a is act:
                vv = vals
            else:
                vv = {}
                for d, v in a.phih.items():
                    vv[("phi", d)] = v
                for (on, off), nb in l2.mod_cells.items():
                    o = st.mem.get(on)
                    if o is not None and off in o.cells and o.cells[off][0] == nb:
                        vv[("cell", on, off)] = o.cells[off][1]
            lv = []
            pv = []
            for var in sorted(vv, key=str):
                v = vv[var]
                s = l2.steps.get(var)
                if s is None or isz(s) or isinstance(s, str):
                    continue
                if isinstance(v, Ptr) and s != 0:
                    pv.append((var, v, s))
                if isinstance(v, (XR, Ptr, Cat, Vec, Agg)) or v is UNDEF or isinstance(v, bool) or (isz(v) and not z3.is_int(v)):
                    continue
                lv.append((var, v, s))
            self.levels.append(lv)
            self.ptrs.append(pv)


class _Fake:
    steps = {("x",): None}
    mod_cells = {}


FAKE = _Fake()
