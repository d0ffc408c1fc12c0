"""Value domain: mathematical integers, extended reals, pointers.

ints   : python int | z3 Int term, canonical *signed* value of the IR width (i1: bool | z3 Bool)
floats : XR(r, nan, inf)  r: Fraction | z3 Real; nan/inf: bool | z3 Bool; when inf holds, sign(r) is the sign
"""
from fractions import Fraction
import z3

T, F = True, False


class Unsupported(Exception):
    pass


def isz(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    return x if isz(x) else z3.IntVal(x)


def zb(x):
    return x if isz(x) else z3.BoolVal(bool(x))


def zr(x):
    return x if isz(x) else z3.RealVal(str(x) if isinstance(x, Fraction) else x)


# ---- booleans
def bnot(a):
    if not isz(a):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if isz(x):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if isz(x):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bxor(a, b):
    if not isz(a) and not isz(b):
        return a != b
    if not isz(a):
        a, b = b, a
    if not isz(b):
        return bnot(a) if b else a
    return z3.Xor(a, b)


def beq(a, b):
    return bnot(bxor(a, b))


def bite(c, a, b):
    if not isz(c):
        return a if c else b
    if not isz(a) and not isz(b):
        if a == b:
            return a
        return c if a else bnot(c)
    return z3.If(c, zb(a), zb(b))


# ---- ints
def same(a, b):
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    return a == b and type(a) == type(b)


def iadd(a, b):
    if not isz(a) and not isz(b):
        return a + b
    if not isz(a):
        if a == 0:
            return b
        a, b = b, a
    if not isz(b):
        if b == 0:
            return a
        # fold (x + c1) + c2
        if z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
            return iadd(a.arg(0), a.arg(1).as_long() + b)
    return a + b


def isub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b):
        return iadd(a, -b)
    if isz(a) and a.eq(b):
        return 0
    return zi(a) - b


def imul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    if not isz(a):
        a, b = b, a
    if not isz(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        if z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
            return imul(a.arg(0), a.arg(1).as_long() * b)
    return a * b


def ineg(a):
    return isub(0, a)


def ilt(a, b):
    if not isz(a) and not isz(b):
        return a < b
    if isz(a) and isz(b) and a.eq(b):
        return False
    return zi(a) < zi(b)


def ile(a, b):
    if not isz(a) and not isz(b):
        return a <= b
    if isz(a) and isz(b) and a.eq(b):
        return True
    return zi(a) <= zi(b)


def b01(t):
    """boolean behind a 0/1 integer, or None"""
    if not isz(t):
        return bool(t) if t in (0, 1) else None
    if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
        x, y = t.arg(1).as_long(), t.arg(2).as_long()
        if (x, y) == (1, 0):
            return t.arg(0)
        if (x, y) == (0, 1):
            return bnot(t.arg(0))
    return None


def ieq(a, b):
    if not isz(a) and not isz(b):
        return a == b
    if not isz(a):
        a, b = b, a
    if not isz(b) and b in (0, 1):
        c = b01(a)
        if c is not None:
            return c if b == 1 else bnot(c)
    if isz(a) and isz(b) and a.eq(b):
        return True
    return zi(a) == zi(b)


def iite(c, a, b):
    if not isz(c):
        return a if c else b
    if same(a, b):
        return a
    return z3.If(c, zi(a), zi(b))


def sadd(s, cs):
    """assert facts (without the conversions of Solver.add)"""
    ctx = s.ctx.ref()
    for c in cs:
        z3.Z3_solver_assert(ctx, s.solver, c.as_ast())


def imod(a, n):
    """floor mod by positive constant n"""
    if not isz(a):
        return a % n
    return a % n


def idivf(a, n):
    """floor div by positive constant n"""
    if not isz(a):
        return a // n
    return a / n


# ---- reals
def radd(a, b):
    if not isz(a) and not isz(b):
        return a + b
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    return zr(a) + zr(b)


def rsub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b) and b == 0:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return Fraction(0)
    return zr(a) - zr(b)


def rmul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not isz(x):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
            if x == -1:
                return -y
    return zr(a) * zr(b)


def rdiv(a, b):
    if not isz(b):
        if b == 0:
            return Fraction(0)
        if not isz(a):
            return a / b
        return zr(a) * zr(1 / Fraction(b))
    return zr(a) / b


def rneg(a):
    return -a


def rlt(a, b):
    if not isz(a) and not isz(b):
        return a < b
    if isz(a) and isz(b) and a.eq(b):
        return False
    return zr(a) < zr(b)


def rle(a, b):
    if not isz(a) and not isz(b):
        return a <= b
    if isz(a) and isz(b) and a.eq(b):
        return True
    return zr(a) <= zr(b)


def req(a, b):
    if not isz(a) and not isz(b):
        return a == b
    if isz(a) and isz(b) and a.eq(b):
        return True
    return zr(a) == zr(b)


def rite(c, a, b):
    if not isz(c):
        return a if c else b
    if same(a, b):
        return a
    return z3.If(c, zr(a), zr(b))


def toreal(a):
    if not isz(a):
        return Fraction(a)
    return z3.ToReal(a)


def rfloor(a):
    """floor of a real as int term"""
    if not isz(a):
        return a.numerator // a.denominator
    if a.decl().kind() == z3.Z3_OP_TO_REAL:
        return a.arg(0)
    return z3.ToInt(a)


class XR:
    __slots__ = ("r", "nan", "inf")

    def __init__(self, r, nan=False, inf=False):
        self.r, self.nan, self.inf = r, nan, inf

    def __repr__(self):
        return "XR(%s,%s,%s)" % (self.r, self.nan, self.inf)

    def plain(self):
        return self.nan is False and self.inf is False

    def eqs(self, o):
        return same(self.r, o.r) and same(self.nan, o.nan) and same(self.inf, o.inf)


def xconst(v):
    if v == "nan":
        return XR(Fraction(0), True, False)
    if v == "inf":
        return XR(Fraction(1), False, True)
    if v == "-inf":
        return XR(Fraction(-1), False, True)
    return XR(Fraction(v))


def xneg(a):
    return XR(rneg(a.r) if isz(a.r) else -a.r, a.nan, a.inf)


def xadd(a, b):
    if a.plain() and b.plain():
        return XR(radd(a.r, b.r))
    bothinf = band(a.inf, b.inf)
    opp = bxor(rlt(a.r, 0), rlt(b.r, 0))
    nan = bor(a.nan, b.nan, band(bothinf, opp))
    inf = bor(a.inf, b.inf)
    r = rite(a.inf, a.r, rite(b.inf, b.r, radd(a.r, b.r)))
    return XR(r, nan, inf)


def xsub(a, b):
    if a.plain() and b.plain():
        return XR(rsub(a.r, b.r))
    return xadd(a, xneg(b))


def xmul(a, b):
    if a.plain() and b.plain():
        return XR(rmul(a.r, b.r))
    za = band(bnot(a.inf), req(a.r, 0))
    zb_ = band(bnot(b.inf), req(b.r, 0))
    nan = bor(a.nan, b.nan, band(a.inf, zb_), band(b.inf, za))
    inf = bor(a.inf, b.inf)
    return XR(rmul(a.r, b.r), nan, inf)


def xdiv(a, b, bz):
    """bz: may b be zero: False, or bool term"""
    if bz is False and a.plain() and b.plain():
        return XR(rdiv(a.r, b.r))
    bzero = False if bz is False else band(bnot(b.inf), bz)
    azero = band(bnot(a.inf), req(a.r, 0)) if bzero is not False else False
    nan = bor(a.nan, b.nan, band(a.inf, b.inf), band(azero, bzero))
    inf = bor(a.inf, band(bzero, bnot(azero)))
    r = rdiv(a.r, b.r)
    if bzero is not False:
        r = rite(bzero, a.r, r)     # positive zero divisor: sign of a
    if a.inf is not False:
        r = rite(a.inf, rmul(a.r, rite(rlt(b.r, 0), Fraction(-1), Fraction(1))), r)
    if b.inf is not False:
        r = rite(band(b.inf, bnot(a.inf)), Fraction(0), r)
    return XR(r, nan, inf)


def xlt(a, b):
    if a.plain() and b.plain():
        return rlt(a.r, b.r)
    core = bite(a.inf, bite(b.inf, band(rlt(a.r, 0), rlt(0, b.r)), rlt(a.r, 0)),
                bite(b.inf, rlt(0, b.r), rlt(a.r, b.r)))
    return band(bnot(a.nan), bnot(b.nan), core)


def xeq(a, b):
    if a.plain() and b.plain():
        return req(a.r, b.r)
    core = bite(a.inf, band(b.inf, beq(rlt(a.r, 0), rlt(b.r, 0))), band(bnot(b.inf), req(a.r, b.r)))
    return band(bnot(a.nan), bnot(b.nan), core)


def xle(a, b):
    return bor(xlt(a, b), xeq(a, b)) if not (a.plain() and b.plain()) else rle(a.r, b.r)


def xite(c, a, b):
    if not isz(c):
        return a if c else b
    return XR(rite(c, a.r, b.r), bite(c, a.nan, b.nan), bite(c, a.inf, b.inf))


def xabs(a):
    return XR(rite(rlt(a.r, 0), rneg(a.r) if isz(a.r) else -a.r, a.r), a.nan, a.inf)


# identity of float values as data (NaN identical to NaN)
def xident(a, b):
    if a.plain() and b.plain():
        return req(a.r, b.r)
    return bor(band(a.nan, b.nan),
               band(bnot(a.nan), bnot(b.nan), beq(a.inf, b.inf),
                    bite(a.inf, beq(rlt(a.r, 0), rlt(b.r, 0)), req(a.r, b.r))))


# ---- pointers and composites
class Ptr:
    __slots__ = ("obj", "off", "hint")

    def __init__(self, obj, off=0, hint=None):
        self.obj, self.off, self.hint = obj, off, hint

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


NULL = Ptr(None, 0)


class PIte:
    """pointer depending on a condition (after a join); loads merge, other uses fork"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Resolve(Exception):
    """the path must be split on a condition before the instruction can be executed"""

    def __init__(self, c):
        self.c = c


class Vec:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "Vec%r" % (self.e,)


class Agg:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "Agg%r" % (self.e,)


class Cat:
    """composite of byte-sized parts, little endian: [(nbytes, value)]"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "Cat%r" % (self.p,)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def veq(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if type(a) != type(b):
        if isz(a) and isz(b):
            return a.eq(b)
        return False
    if isz(a):
        return a.eq(b)
    if isinstance(a, XR):
        return a.eqs(b)
    if isinstance(a, Ptr):
        return a.obj == b.obj and same_off(a.off, b.off)
    if isinstance(a, PIte):
        return a.c.eq(b.c) and veq(a.a, b.a) and veq(a.b, b.b)
    if isinstance(a, (Vec, Agg)):
        return len(a.e) == len(b.e) and all(veq(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Cat):
        return len(a.p) == len(b.p) and all(x[0] == y[0] and veq(x[1], y[1]) for x, y in zip(a.p, b.p))
    return a == b


def same_off(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(
            same(x, y) or (x == y if not isz(x) and not isz(y) else False) for x, y in zip(a, b))
    return same(a, b)


def lin(e):
    """linear form of an int term: ({ast_id:(atom,coef)}, const)"""
    if not isz(e):
        return {}, e
    d = {}
    c = [0]

    def go(e, m):
        if not isz(e):
            c[0] += m * e
            return
        if z3.is_int_value(e):
            c[0] += m * e.as_long()
            return
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            for a in e.children():
                go(a, m)
            return
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            go(ch[0], m)
            for a in ch[1:]:
                go(a, -m)
            return
        if k == z3.Z3_OP_UMINUS:
            go(e.arg(0), -m)
            return
        if k == z3.Z3_OP_MUL:
            ch = e.children()
            num = 1
            rest = []
            for a in ch:
                if z3.is_int_value(a):
                    num *= a.as_long()
                else:
                    rest.append(a)
            if len(rest) == 0:
                c[0] += m * num
                return
            if len(rest) == 1:
                go(rest[0], m * num)
                return
            at = rest[0]
            for a in rest[1:]:
                at = at * a
            i = at.get_id()
            o = d.get(i, (at, 0))
            d[i] = (at, o[1] + m * num)
            return
        i = e.get_id()
        o = d.get(i, (e, 0))
        d[i] = (e, o[1] + m)

    go(e, 1)
    return {i: v for i, v in d.items() if v[1] != 0}, c[0]


def unlin(d, c):
    t = None
    for i in sorted(d):
        a, m = d[i]
        x = imul(a, m)
        t = x if t is None else t + x
    if t is None:
        return c
    return iadd(t, c)
