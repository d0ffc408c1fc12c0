"""Sound linear abstraction of non-linear goals.
Every product of two or more non-constant factors becomes a fresh variable, every quotient q = x/y (reals) a fresh
variable with y /= 0 -> q*y = x; instances of (the strict forms for integers, the non-strict ones for reals)
  (S)  x>=0 & y>=0 -> x*y>=0          (M)  y>=0 & x<x' -> x*y+y <= x'*y ;  x=x' -> x*y = x'*y
  (D)  (a+b)*y = a*y + b*y            (U)  y>=0 & x>=1 -> x*y>=y
are added for the products that occur.  unsat of the abstraction implies unsat of the goal."""
import itertools
import z3


def num(x):
    """value of a numeral, else None"""
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return x.as_fraction()
    return None


def val(c, like):
    return z3.IntVal(c) if z3.is_int(like) else z3.RealVal(str(c))


class Abs:
    def __init__(self):
        self.cache = {}
        self.mon = {}      # sorted tuple of factor ids -> var
        self.fac = {}      # id -> abstracted factor term
        self.keep = []
        self.n = 0
        self.sums = {}
        self.defs = {}
        self.ms = {}
        self.lc = {}
        self.byv = {}

    def key(self, t):
        self.keep.append(t)
        i = t.get_id()
        self.fac[i] = t
        return i

    def mono(self, ids, like=None):
        ids = tuple(sorted(ids))
        if len(ids) == 0:
            return val(1, like)
        if len(ids) == 1:
            return self.fac[ids[0]]
        v = self.mon.get(ids)
        if v is None and self.full is not None:
            v = self.full.get(ids)
            if v is not None:
                self.mon[ids] = v
        if v is None:
            self.n += 1
            v = (z3.Int if z3.is_int(self.fac[ids[0]]) else z3.Real)("mono!%d" % self.n)
            self.mon[ids] = v
            self.byv[v.get_id()] = ids
        return v

    def uses(self, e):
        """monomials and quotients occurring in an abstracted term"""
        i = e.get_id()
        r = self.ms.get(i)
        if r is None:
            self.keep.append(e)
            r = set()
            if i in self.byv:
                r.add(i)
                for f in self.byv[i]:
                    r |= self.uses(self.fac[f])
            elif i in self.defs:
                r.add(i)
            elif z3.is_app(e):
                for c in e.children():
                    r |= self.uses(c)
            r = self.ms[i] = frozenset(r)
        return r

    def factors(self, e):
        """(const, [factor ids]) of an abstracted-children multiplication"""
        c = 1
        out = []
        st = [e]
        while st:
            x = st.pop()
            if z3.is_app_of(x, z3.Z3_OP_MUL):
                st += x.children()
            elif num(x) is not None:
                c *= num(x)
            elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
                c = -c
                st.append(x.arg(0))
            else:
                a = self.go(x)
                # abstracted child may itself be const * atom
                if z3.is_app_of(a, z3.Z3_OP_MUL) and a.num_args() == 2 and num(a.arg(0)) is not None:
                    c *= num(a.arg(0))
                    a = a.arg(1)
                if num(a) is not None:
                    c *= num(a)
                    continue
                m = self.inv.get(a.get_id())
                if m is not None:
                    out += list(m)
                else:
                    out.append(self.key(a))
        return c, out

    def integral(self, e):
        """the integer term equal to the real term e, or None"""
        k = ("int", e.get_id())
        if k in self.cache:
            return self.cache[k]
        self.keep.append(e)
        r = None
        v = num(e)
        if v is not None:
            r = z3.IntVal(v.numerator) if v.denominator == 1 else None
        elif z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            r = e.arg(0)
        elif z3.is_app_of(e, z3.Z3_OP_ADD) or z3.is_app_of(e, z3.Z3_OP_MUL) or z3.is_app_of(e, z3.Z3_OP_SUB) or z3.is_app_of(e, z3.Z3_OP_UMINUS):
            ch = [self.integral(c) for c in e.children()]
            if all(c is not None for c in ch):
                if z3.is_app_of(e, z3.Z3_OP_ADD):
                    r = z3.Sum(ch)
                elif z3.is_app_of(e, z3.Z3_OP_MUL):
                    r = ch[0]
                    for c in ch[1:]:
                        r = r * c
                elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
                    r = -ch[0]
                else:
                    r = ch[0]
                    for c in ch[1:]:
                        r = r - c
        self.cache[k] = r
        return r

    inv = {}
    bnd = {}
    sc = {}

    def scan(self, cs):
        """constant bounds of variables from top-level facts"""
        bnd = self.bnd
        for c in cs:
            i = c.get_id()
            r = self.sc.get(i)
            if r is None:
                self.keep.append(c)
                was, self.bnd = self.bnd, {}
                self.scan1([c])
                r = self.sc[i] = tuple(self.bnd.items())
                self.bnd = was
            for i, (l, h) in r:
                lo, hi = bnd.get(i, (None, None))
                bnd[i] = (l if lo is None else lo if l is None else max(lo, l), h if hi is None else hi if h is None else min(hi, h))

    def scan1(self, cs):
        for c in cs:
            neg = z3.is_not(c)
            d = c.arg(0) if neg else c
            k = d.decl().kind() if z3.is_app(d) else None
            if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                continue
            x, y = d.arg(0), d.arg(1)
            if not z3.is_int(x):
                continue
            op = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">"}[k]
            if neg:
                op = {"<=": ">", ">=": "<", "<": ">=", ">": "<="}[op]
            if z3.is_int_value(x) and not z3.is_int_value(y):
                x, y = y, x
                op = {"<=": ">=", ">=": "<=", "<": ">", ">": "<"}[op]
            if not z3.is_int_value(y):
                continue
            v = y.as_long()
            i = x.get_id()
            lo, hi = self.bnd.get(i, (None, None))
            if op in ("<", "<="):
                v -= op == "<"
                hi = v if hi is None else min(hi, v)
            else:
                v += op == ">"
                lo = v if lo is None else max(lo, v)
            self.bnd[i] = (lo, hi)

    def rng(self, t):
        if z3.is_int_value(t):
            return (t.as_long(), t.as_long())
        i = t.get_id()
        lo, hi = self.bnd.get(i, (None, None))
        k = t.decl().kind()
        a = b = None
        if k == z3.Z3_OP_ADD:
            a = b = 0
            for c in t.children():
                l, h = self.rng(c)
                a = None if a is None or l is None else a + l
                b = None if b is None or h is None else b + h
        elif k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            m = t.arg(0).as_long()
            l, h = self.rng(t.arg(1))
            if m < 0:
                l, h = h, l
            a = None if l is None else l * m
            b = None if h is None else h * m
        elif k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
            a, b = 0, t.arg(1).as_long() - 1
        elif k == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
            n = t.arg(1).as_long()
            l, h = self.rng(t.arg(0))
            a = None if l is None else l // n
            b = None if h is None else h // n
        elif k == z3.Z3_OP_ITE:
            l, h = self.rng(t.arg(1))
            l2, h2 = self.rng(t.arg(2))
            a = None if l is None or l2 is None else min(l, l2)
            b = None if h is None or h2 is None else max(h, h2)
        lo = a if lo is None else lo if a is None else max(lo, a)
        hi = b if hi is None else hi if b is None else min(hi, b)
        return (lo, hi)

    def go(self, e):
        i = e.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r
        self.keep.append(e)
        if z3.is_quantifier(e) or z3.is_var(e):
            r = e
        elif z3.is_app_of(e, z3.Z3_OP_MUL) and z3.is_real(e) and nonlinear(e) and self.integral(e) is not None:
            r = z3.ToReal(self.go(z3.simplify(self.integral(e))))
        elif z3.is_app_of(e, z3.Z3_OP_MUL):
            c, f = self.factors(e)
            if len(f) <= 1:
                t = self.fac[f[0]] if f else None
                r = val(c, e) if not f else t if c == 1 else val(c, e) * t
            else:
                v = self.mono(f)
                self.inv[v.get_id()] = tuple(sorted(f))
                r = v if c == 1 else val(c, e) * v
        elif z3.is_app_of(e, z3.Z3_OP_DIV) and num(e.arg(1)) is None:
            x, y = self.go(e.arg(0)), self.go(e.arg(1))
            k = ("div", x.get_id(), y.get_id())
            r = self.cache.get(k)
            if r is None:
                self.n += 1
                r = self.cache[k] = z3.Real("quot!%d" % self.n)
                self.keep += [x, y]
                c, f = self.factors(r * y)
                p = self.mono(f)
                if len(f) > 1:
                    self.inv[p.get_id()] = tuple(sorted(f))
                self.defs[r.get_id()] = z3.Implies(y != 0, (p if c == 1 else val(c, e) * p) == x)
        elif e.num_args() == 0:
            r = e
        else:
            ch = [self.go(x) for x in e.children()]
            if all(a.eq(b) for a, b in zip(ch, e.children())):
                r = e
            elif z3.is_app_of(e, z3.Z3_OP_ADD):
                r = z3.Sum(ch)
            elif z3.is_app_of(e, z3.Z3_OP_AND):
                r = z3.And(*ch)
            elif z3.is_app_of(e, z3.Z3_OP_OR):
                r = z3.Or(*ch)
            else:
                r = e.decl()(*ch)
        self.cache[i] = r
        return r

    def lemmas(self, used):
        fs = sorted({f for i in used if i in self.byv for f in self.byv[i]})
        key = (frozenset(used), tuple((f,) + self.rng(self.fac[f]) for f in fs if z3.is_int(self.fac[f])))
        r = self.lc.get(key)
        if r is None:
            full = self.mon
            self.mon = {self.byv[i]: v for i, v in ((i, full[self.byv[i]]) for i in used if i in self.byv)}
            new = self.mon
            self.full = full
            try:
                r = self.lemmas1()
            finally:
                full.update(new)
                self.mon = full
                self.full = None
            self.lc[key] = r
        return r

    full = None

    def lemmas1(self):
        out = []
        # distribution over sums (one round creates the monomials needed)
        for ids, v in list(self.mon.items()):
            for k, f in enumerate(ids):
                t = self.fac[f]
                rest = ids[:k] + ids[k + 1:]
                if z3.is_app_of(t, z3.Z3_OP_ADD) and t.num_args() <= 6 and len(rest) <= 3:
                    parts = []
                    for x in t.children():
                        c = 1
                        if num(x) is not None:
                            parts.append(val(num(x), v) * self.mono(rest, v))
                            continue
                        if z3.is_app_of(x, z3.Z3_OP_MUL) and x.num_args() == 2 and num(x.arg(0)) is not None:
                            c, x = num(x.arg(0)), x.arg(1)
                        m = self.inv.get(x.get_id())
                        fs = list(m) if m is not None else [self.key(x)]
                        w = self.mono(list(rest) + fs)
                        self.inv[w.get_id()] = tuple(sorted(list(rest) + fs))
                        parts.append(w if c == 1 else val(c, v) * w)
                    out.append(v == z3.Sum(parts))
                    break
        for ids in list(self.mon):
            if len(ids) <= 4:
                for r in range(2, len(ids)):
                    for comb in itertools.combinations(ids, r):
                        self.mono(comb)
        mons = list(self.mon.items())
        splits = {}
        for ids, v in mons:
            n = len(ids)
            if n > 4:
                continue
            seen = set()
            for r in range(1, n):
                for comb in itertools.combinations(range(n), r):
                    y = tuple(ids[j] for j in comb)
                    x = tuple(ids[j] for j in range(n) if j not in comb)
                    if (x, y) in seen:
                        continue
                    seen.add((x, y))
                    splits.setdefault(y, []).append((x, v))
                    X, Y = self.mono(x), self.mono(y)
                    out.append(z3.Implies(z3.And(X >= 0, Y >= 0), v >= 0))
                    out.append(z3.Implies(z3.And(X >= 1, Y >= 0), v >= Y))
                    out.append(z3.Implies(z3.Or(X == 0, Y == 0), v == 0))
                    if len(x) == 1 and z3.is_int(v):
                        lo, hi = self.rng(X)
                        if hi is not None:
                            out.append(z3.Implies(z3.And(X <= hi, Y >= 0), v <= hi * Y))
                        if lo is not None and lo not in (0, 1):
                            out.append(z3.Implies(z3.And(X >= lo, Y >= 0), v >= lo * Y))
        quad = [(ids, v) for ids, v in mons if len(ids) == 2]
        if len(quad) <= 60:
            for (i1, v1), (i2, v2) in itertools.combinations(quad, 2):
                if set(i1) & set(i2) or z3.is_int(v1) != z3.is_int(v2):
                    continue
                a, b = [self.fac[i] for i in i1]
                c, d = [self.fac[i] for i in i2]
                out.append(z3.Implies(z3.Or(z3.And(a == c, b == d), z3.And(a == d, b == c)), v1 == v2))
        cnt = 0
        for y, l in splits.items():
            Y = self.mono(y)
            for (x1, v1), (x2, v2) in itertools.combinations(l, 2):
                if v1.eq(v2):
                    continue
                A, B = self.mono(x1), self.mono(x2)
                if z3.is_int(Y):
                    out.append(z3.Implies(z3.And(Y >= 0, A < B), v1 + Y <= v2))
                    out.append(z3.Implies(z3.And(Y >= 0, B < A), v2 + Y <= v1))
                else:
                    out.append(z3.Implies(z3.And(Y >= 0, A <= B), v1 <= v2))
                    out.append(z3.Implies(z3.And(Y >= 0, B <= A), v2 <= v1))
                    out.append(z3.Implies(z3.And(Y > 0, A < B), v1 < v2))
                    out.append(z3.Implies(z3.And(Y > 0, B < A), v2 < v1))
                out.append(z3.Implies(A == B, v1 == v2))
                cnt += 1
                if cnt > 1500:
                    return out
        return out


_abs = None


def abstract(pc, neg):
    global _abs
    if _abs is None:
        _abs = Abs()
        _abs.inv = {}
    a = _abs
    a.bnd = {}
    a.scan(pc)
    cs = [a.go(c) for c in pc] + [a.go(neg)]
    used = set()
    for c in cs:
        used |= a.uses(c)
    todo = [i for i in used if i in a.defs]
    while todo:
        i = todo.pop()
        for j in a.uses(a.defs[i].arg(1)) | a.uses(a.defs[i].arg(0)):
            if j not in used:
                used.add(j)
                if j in a.defs:
                    todo.append(j)
    if not used:
        return None
    return cs + [a.defs[i] for i in used if i in a.defs] + a.lemmas(used)


_nl = {}
_nlk = []


def nonlinear(e):
    """does a product or quotient of non-constants occur?"""
    i = e.get_id()
    r = _nl.get(i)
    if r is None:
        r = False
        if z3.is_app(e):
            if z3.is_app_of(e, z3.Z3_OP_MUL):
                r = sum(num(c) is None for c in e.children()) > 1
            elif z3.is_app_of(e, z3.Z3_OP_DIV):
                r = num(e.arg(1)) is None
            r = r or any(nonlinear(c) for c in e.children())
        _nl[i] = r
        _nlk.append(e)
    return r


def self_check():
    """the lemma schemas, proved"""
    x, y, z = z3.Ints("x y z")
    a, b, c = z3.Reals("a b c")
    goals = [z3.Implies(z3.And(a >= 0, b >= 0), a * b >= 0),
             z3.Implies(z3.And(a >= 1, b >= 0), a * b >= b),
             z3.Implies(z3.And(b >= 0, a + 1 <= c), a * b + b <= c * b),
             (a + c) * b == a * b + c * b,
             z3.Implies(z3.And(b >= 0, a <= c), a * b <= c * b),
             z3.Implies(z3.And(b > 0, a < c), a * b < c * b),
             z3.Implies(z3.Or(a == 0, b == 0), a * b == 0)]
    n = 0
    for g in goals:
        s = z3.Tactic("qfnra-nlsat").solver()
        s.add(z3.Not(g))
        if s.check() != z3.unsat:
            return -1
        n += 1
    return n
