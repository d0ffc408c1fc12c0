"""Parser for the subset of textual LLVM 18 IR the verifier consumes."""
import re
import struct
from fractions import Fraction


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name", "packed")

    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k, self.n, self.el, self.name, self.packed = k, n, el, name, packed

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k in ("arr", "vec"):
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return self.name or "{%s}" % ",".join(map(repr, self.el))
        return self.k


INT = {}


def tint(n):
    if n not in INT:
        INT[n] = Ty("int", n)
    return INT[n]


VOID, PTR, F32, F64, F80, LABEL, META = (
    Ty("void"), Ty("ptr"), Ty("f32"), Ty("f64"), Ty("f80"), Ty("label"), Ty("metadata"))

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<lid>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<gid>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9\\]*))
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';':
                break
            raise IRError("tokenize: %r" % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
    return out


def unq(s):
    if len(s) > 1 and s[1] == '"':
        return s[0] + re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s[2:-1])
    return s


class Val:
    """operand: kinds reg, global, int, fp, null, undef, zero, agg, str, cexpr, meta"""
    __slots__ = ("k", "v", "ty", "x")

    def __init__(self, k, v=None, ty=None, x=None):
        self.k, self.v, self.ty, self.x = k, v, ty, x

    def __repr__(self):
        return "<%s %r %r>" % (self.k, self.v, self.ty)


class Inst:
    __slots__ = ("op", "dst", "ty", "ops", "x", "dbg", "fn", "lab")

    def __init__(self, op, dst=None, ty=None, ops=None, x=None, dbg=None):
        self.op, self.dst, self.ty, self.ops, self.x, self.dbg = op, dst, ty, ops or [], x, dbg

    def __repr__(self):
        return "%s = %s %r %r %r" % (self.dst, self.op, self.ty, self.ops, self.x)


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.blocks = {}
        self.order = []
        self.ret = None
        self.loops = None


PARAM_ATTR_PAREN = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref",
                    "inalloca", "preallocated", "elementtype", "memory", "nofpclass", "range", "allocsize",
                    "vscale_range", "captures", "initializes"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp",
         "contract", "afn", "reassoc", "samesign", "nusw"}
CCONV = {"fastcc", "ccc", "coldcc", "cc"}


class P:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def pk(self, d=0):
        j = self.i + d
        return self.t[j][1] if j < len(self.t) else None

    def kd(self, d=0):
        j = self.i + d
        return self.t[j][0] if j < len(self.t) else None

    def nx(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def ac(self, s):
        if self.pk() == s:
            self.i += 1
            return True
        return False

    def ex(self, s):
        if not self.ac(s):
            raise IRError("expected %r got %r in %r" % (s, self.pk(), " ".join(x[1] for x in self.t[:40])))

    def ty(self):
        t = self.pk()
        k = self.kd()
        if t == "[":
            self.nx()
            n = int(self.nx())
            self.ex("x")
            e = self.ty()
            self.ex("]")
            r = Ty("arr", n, e)
        elif t == "<":
            self.nx()
            if self.pk() == "{":
                r = self.ty()
                r = Ty("struct", 0, r.el, None, True)
                self.ex(">")
            else:
                n = int(self.nx())
                self.ex("x")
                e = self.ty()
                self.ex(">")
                r = Ty("vec", n, e)
        elif t == "{":
            self.nx()
            el = []
            while not self.ac("}"):
                el.append(self.ty())
                self.ac(",")
            r = Ty("struct", 0, el)
        elif k == "lid":
            self.nx()
            r = self.m.named(unq(t))
        elif re.fullmatch(r"i\d+", t or ""):
            self.nx()
            r = tint(int(t[1:]))
        elif t in ("ptr", "float", "double", "void", "label", "metadata", "x86_fp80", "token", "opaque", "half",
                   "fp128"):
            self.nx()
            r = {"ptr": PTR, "float": F32, "double": F64, "void": VOID, "label": LABEL, "metadata": META,
                 "x86_fp80": F80, "token": Ty("token"), "opaque": Ty("opaque"), "half": Ty("half"),
                 "fp128": Ty("fp128")}[t]
        else:
            raise IRError("type? %r" % (self.t[self.i:self.i + 6],))
        while True:
            if self.pk() == "addrspace":
                self.nx(); self.ex("("); self.nx(); self.ex(")")
                continue
            if self.pk() == "(":
                # function type: ret (args)
                self.nx()
                depth = 1
                while depth:
                    x = self.nx()
                    if x == "(":
                        depth += 1
                    elif x == ")":
                        depth -= 1
                r = Ty("fnty", 0, r)
                continue
            break
        return r

    def skip_attrs(self):
        """skip parameter / return attributes"""
        out = {}
        while True:
            k, t = self.kd(), self.pk()
            if k == "word" and t in PARAM_ATTR_PAREN:
                self.nx()
                if self.pk() == "(":
                    self.nx()
                    if t in ("byval", "sret", "elementtype", "byref"):
                        out[t] = self.ty()
                        self.ex(")")
                    else:
                        d = 1
                        while d:
                            x = self.nx()
                            d += (x == "(") - (x == ")")
                elif t == "align":
                    self.nx()
                continue
            if k == "word" and t in ("noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture",
                                     "nofree", "nest", "returned", "readonly", "readnone", "writeonly", "swiftself",
                                     "immarg", "allocptr", "allocalign", "noreturn", "nounwind", "dead_on_unwind",
                                     "writable", "dso_local", "hidden", "unnamed_addr", "local_unnamed_addr",
                                     "fastcc", "ccc", "coldcc"):
                out[t] = True
                self.nx()
                continue
            if k == "attr":
                self.nx()
                continue
            if k == "str":
                self.nx()
                if self.ac("="):
                    self.nx()
                continue
            return out

    def const_int(self):
        return int(self.nx())

    def val(self, ty):
        k, t = self.kd(), self.pk()
        if k == "lid":
            self.nx()
            return Val("reg", unq(t), ty)
        if k == "gid":
            self.nx()
            return Val("global", unq(t), ty)
        if k == "num":
            self.nx()
            if ty.k == "int":
                v = int(t)
                if ty.n == 1:
                    return Val("int", bool(v), ty)
                return Val("int", v, ty)
            return Val("fp", Fraction(t) if "e" not in t.lower() else Fraction(float(t)), ty)
        if k == "hex":
            self.nx()
            if t[2] in "KLMHR":
                if t[2] == "K":
                    x = int(t[3:], 16)
                    s = x >> 79
                    e = (x >> 64) & 0x7fff
                    man = x & ((1 << 64) - 1)
                    if e == 0x7fff:
                        return Val("fp", "inf" if (man << 1) & ((1 << 64) - 1) == 0 and not s else ("-inf" if (man << 1) & ((1 << 64) - 1) == 0 else "nan"), ty)
                    f = Fraction(man, 1 << 63) * (Fraction(2) ** (e - 16383))
                    return Val("fp", -f if s else f, ty)
                raise IRError("fp const %s" % t)
            d = struct.unpack(">d", struct.pack(">Q", int(t, 16)))[0]
            if d != d:
                return Val("fp", "nan", ty)
            if d in (float("inf"), float("-inf")):
                return Val("fp", "inf" if d > 0 else "-inf", ty)
            return Val("fp", Fraction(d), ty)
        if t in ("true", "false"):
            self.nx()
            return Val("int", t == "true", ty)
        if t == "null":
            self.nx()
            return Val("null", None, ty)
        if t in ("undef", "poison"):
            self.nx()
            return Val("undef", None, ty)
        if t == "zeroinitializer":
            self.nx()
            return Val("zero", None, ty)
        if t == "none":
            self.nx()
            return Val("zero", None, ty)
        if k == "str" and t.startswith("c"):
            self.nx()
            return Val("str", unesc(t[2:-1]), ty)
        if t in ("[", "{", "<"):
            br = {"[": "]", "{": "}", "<": ">"}[t]
            self.nx()
            packed = False
            if t == "<" and self.pk() == "{":
                self.nx()
                packed = True
                br = "}"
            el = []
            while not self.ac(br):
                et = self.ty()
                self.skip_attrs()
                el.append(self.val(et))
                self.ac(",")
            if packed:
                self.ex(">")
            return Val("agg", el, ty)
        if t in ("getelementptr",):
            self.nx()
            while self.pk() in FLAGS or self.pk() == "inrange":
                self.nx()
                if self.pk() == "(" and self.t[self.i - 1][1] == "inrange":
                    while self.nx() != ")":
                        pass
            self.ex("(")
            bt = self.ty()
            ops = []
            while self.ac(","):
                if self.pk() == "inrange":
                    self.nx()
                et = self.ty()
                ops.append(self.val(et))
            self.ex(")")
            return Val("cexpr", "gep", ty, (bt, ops))
        if t in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast", "trunc", "zext", "sext"):
            op = self.nx()
            self.ex("(")
            et = self.ty()
            v = self.val(et)
            self.ex("to")
            tt = self.ty()
            self.ex(")")
            return Val("cexpr", op, tt, [v])
        if t in ("sub", "add", "mul", "xor", "and", "or", "shl", "lshr", "ashr"):
            op = self.nx()
            while self.pk() in FLAGS:
                self.nx()
            self.ex("(")
            a = self.val(self.ty())
            self.ex(",")
            b = self.val(self.ty())
            self.ex(")")
            return Val("cexpr", op, ty, [a, b])
        if t in ("dso_local_equivalent", "no_cfi"):
            self.nx()
            return self.val(ty)
        if k == "md":
            self.nx()
            if self.pk() == "(":
                self.skip_paren()
            return Val("meta", t, ty)
        if t == "asm":
            # inline asm callee
            while self.kd() != "str":
                self.nx()
            s = self.nx()
            self.ex(",")
            c = self.nx()
            return Val("asm", s, ty)
        raise IRError("value? %r (type %r)" % (self.t[self.i:self.i + 8], ty))

    def skip_paren(self):
        self.ex("(")
        d = 1
        while d:
            x = self.nx()
            d += (x == "(") - (x == ")")

    def tv(self):
        ty = self.ty()
        self.skip_attrs()
        if ty.k == "metadata":
            # metadata operand: swallow
            k = self.kd()
            if k == "md":
                self.nx()
                if self.pk() == "(":
                    self.skip_paren()
                return Val("meta", None, ty)
            v = self.val(self.ty())
            return Val("meta", v, ty)
        return self.val(ty)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.decls = set()
        self.md = {}
        self._lines = {}
        with open(path) as f:
            self.parse(f.read())

    def named(self, n):
        if n not in self.types:
            self.types[n] = Ty("struct", 0, None, n)
        return self.types[n]

    # -------------------------------------------------------- layout
    def size(self, t):
        k = t.k
        if k == "int":
            n = (t.n + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == "ptr":
            return 8
        if k == "f32":
            return 4
        if k == "f64":
            return 8
        if k == "f80" or k == "fp128":
            return 16
        if k == "arr":
            return t.n * self.size(t.el)
        if k == "vec":
            return t.n * self.size(t.el)
        if k == "struct":
            o = 0
            if t.el is None:
                raise IRError("opaque type %r" % t)
            for e in t.el:
                if not t.packed:
                    a = self.align(e)
                    o = (o + a - 1) // a * a
                o += self.size(e)
            if not t.packed:
                a = self.align(t)
                o = (o + a - 1) // a * a
            return o
        raise IRError("size %r" % t)

    def align(self, t):
        k = t.k
        if k == "int":
            return 1 if t.n <= 8 else 2 if t.n <= 16 else 4 if t.n <= 32 else 8 if t.n <= 64 else 16
        if k in ("ptr", "f64"):
            return 8
        if k == "f32":
            return 4
        if k in ("f80", "fp128"):
            return 16
        if k == "arr":
            return self.align(t.el)
        if k == "vec":
            return self.size(t)
        if k == "struct":
            if t.packed:
                return 1
            return max([1] + [self.align(e) for e in t.el])
        raise IRError("align %r" % t)

    def field(self, t, i):
        o = 0
        for j, e in enumerate(t.el):
            if not t.packed:
                a = self.align(e)
                o = (o + a - 1) // a * a
            if j == i:
                return o
            o += self.size(e)
        raise IRError("field")

    def leaves(self, t, base=0):
        """[(offset, type)] scalar leaves"""
        if t.k == "struct":
            out = []
            if t.el is None:
                raise IRError("opaque leaves")
            for j, e in enumerate(t.el):
                out += self.leaves(e, base + self.field(t, j))
            return out
        if t.k in ("arr", "vec"):
            s = self.size(t.el)
            if t.n > 4096:
                return [(base, t)]
            out = []
            for j in range(t.n):
                out += self.leaves(t.el, base + j * s)
            return out
        return [(base, t)]

    # -------------------------------------------------------- parsing
    def parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        fn = None
        cur = None
        while i < n:
            ln = lines[i]
            i += 1
            if fn is None:
                if not ln or ln[0] == ";":
                    continue
                c = ln[0]
                if c == "%":
                    m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                    nm = unq(m.group(1))
                    t = self.named(nm)
                    if m.group(2) != "opaque":
                        p = P(self, tokenize(m.group(2)))
                        r = p.ty()
                        t.el, t.packed, t.k = r.el, r.packed, r.k
                        if r.k != "struct":
                            raise IRError("named non struct")
                elif c == "@":
                    self.glob(ln)
                elif c == "!":
                    m = re.match(r"!(\d+) = (?:distinct )?(!DI\w+)?\(?(.*)$", ln)
                    if m:
                        self.md[int(m.group(1))] = (m.group(2), m.group(3))
                elif ln.startswith("define"):
                    fn = self.header(ln)
                    cur = None
                elif ln.startswith("declare"):
                    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                    self.decls.add(unq("@" + m.group(1))[1:])
                continue
            if ln == "}":
                self.fns[fn.name] = fn
                fn = None
                continue
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(" "):
                lab = m.group(1)
                cur = unq("%" + lab)
                fn.blocks[cur] = []
                fn.order.append(cur)
                continue
            # switch continuation
            if ln.rstrip().endswith("[") and "switch" in ln:
                while True:
                    l2 = lines[i]
                    i += 1
                    ln += " " + l2.strip()
                    if l2.strip().startswith("]"):
                        break
            if cur is None:
                # implicit first label: number = count of params
                cur = "%" + str(fn.nimplicit)
                fn.blocks[cur] = []
                fn.order.append(cur)
            # landingpad clauses on following lines
            while i < n and re.match(r"^\s+(cleanup|catch |filter )", lines[i]):
                i += 1
            if i < n and re.match(r"^\s+to label", lines[i]):
                ln += " " + lines[i].strip()
                i += 1
            try:
                ins = self.inst(ln)
            except IRError as e:
                raise IRError("%s\n  in: %s" % (e, ln))
            if ins is not None:
                ins.fn = fn
                fn.blocks[cur].append(ins)

    def header(self, ln):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = unq("@" + m.group(1))[1:]
        fn = Fn(name)
        p = P(self, tokenize(ln[m.end() - 1:]))
        p.ex("(")
        cnt = 0
        while not p.ac(")"):
            if p.ac("..."):
                continue
            ty = p.ty()
            at = p.skip_attrs()
            if p.kd() == "lid":
                nm = unq(p.nx())
                if re.fullmatch(r"%\d+", nm):
                    cnt = int(nm[1:]) + 1
            else:
                nm = "%" + str(cnt)
                cnt += 1
            fn.params.append((nm, ty, at))
            p.ac(",")
        fn.nimplicit = cnt
        mm = re.search(r"!dbg !(\d+)", ln)
        fn.dbg = int(mm.group(1)) if mm else None
        return fn

    def glob(self, ln):
        m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
        name = unq(m.group(1))
        rest = m.group(2)
        ext = re.search(r"\bexternal\b", rest) is not None
        mm = re.search(r"\b(global|constant|alias|ifunc)\b ", rest)
        if not mm:
            return
        if mm.group(1) == "alias":
            p = P(self, tokenize(rest[mm.end():]))
            p.ty()
            p.ac(",")
            v = p.tv()
            self.globals[name[1:]] = ("alias", v, None)
            return
        const = mm.group(1) == "constant"
        try:
            p = P(self, tokenize(rest[mm.end():]))
            ty = p.ty()
            init = None
            if not ext:
                init = p.val(ty)
            self.globals[name[1:]] = ("var", ty, init if init is not None else None, const)
        except IRError:
            self.globals[name[1:]] = ("var", None, None, const)

    def inst(self, ln):
        dbg = None
        m = re.search(r", !dbg !(\d+)", ln)
        if m:
            dbg = int(m.group(1))
        s = ln
        j = re.search(r", !(?=[a-zA-Z])[\w.]+ !", s)
        if j:
            s = s[:j.start()]
        if re.search(r"call void (?:\(metadata.*\) )?@llvm\.dbg\.", s):
            return None
        p = P(self, tokenize(s))
        dst = None
        if p.kd() == "lid" and p.pk(1) == "=":
            dst = unq(p.nx())
            p.nx()
        op = p.nx()
        I = Inst(op, dst, dbg=dbg)
        if op in ("tail", "musttail", "notail"):
            op = p.nx()
            I.op = op
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = set()
            while p.pk() in FLAGS:
                fl.add(p.nx())
            I.ty = p.ty()
            a = p.val(I.ty)
            p.ex(",")
            b = p.val(I.ty)
            I.ops = [a, b]
            I.x = fl
        elif op == "fneg":
            while p.pk() in FLAGS:
                p.nx()
            I.ty = p.ty()
            I.ops = [p.val(I.ty)]
        elif op in ("icmp", "fcmp"):
            while p.pk() in FLAGS:
                p.nx()
            I.x = p.nx()
            I.ty = p.ty()
            a = p.val(I.ty)
            p.ex(",")
            b = p.val(I.ty)
            I.ops = [a, b]
        elif op == "ret":
            if p.pk() == "void":
                I.ops = []
            else:
                I.ops = [p.tv()]
        elif op == "br":
            if p.pk() == "label":
                p.nx()
                I.x = [unq(p.nx())]
            else:
                c = p.tv()
                p.ex(",")
                p.ex("label")
                a = unq(p.nx())
                p.ex(",")
                p.ex("label")
                b = unq(p.nx())
                I.ops = [c]
                I.x = [a, b]
        elif op == "switch":
            c = p.tv()
            p.ex(",")
            p.ex("label")
            d = unq(p.nx())
            p.ex("[")
            cs = []
            while not p.ac("]"):
                v = p.tv()
                p.ex(",")
                p.ex("label")
                cs.append((v.v, unq(p.nx())))
            I.ops = [c]
            I.x = (d, cs)
        elif op == "unreachable":
            pass
        elif op == "alloca":
            I.ty = p.ty()
            I.x = 1
            if p.ac(","):
                if p.pk() != "align":
                    I.ops = [p.tv()]
        elif op == "load":
            p.ac("atomic")
            p.ac("volatile")
            I.ty = p.ty()
            p.ex(",")
            I.ops = [p.tv()]
        elif op == "store":
            p.ac("atomic")
            p.ac("volatile")
            v = p.tv()
            p.ex(",")
            q = p.tv()
            I.ops = [v, q]
        elif op == "getelementptr":
            while p.pk() in FLAGS:
                p.nx()
            I.ty = p.ty()
            while p.ac(","):
                I.ops.append(p.tv())
        elif op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint",
                    "inttoptr", "bitcast", "addrspacecast"):
            while p.pk() in FLAGS:
                p.nx()
            I.ops = [p.tv()]
            p.ex("to")
            I.ty = p.ty()
        elif op == "phi":
            while p.pk() in FLAGS:
                p.nx()
            I.ty = p.ty()
            I.x = []
            while True:
                p.ex("[")
                v = p.val(I.ty)
                p.ex(",")
                b = unq(p.nx())
                p.ex("]")
                I.x.append((v, b))
                if not p.ac(","):
                    break
        elif op == "select":
            while p.pk() in FLAGS:
                p.nx()
            a = p.tv()
            p.ex(",")
            b = p.tv()
            p.ex(",")
            c = p.tv()
            I.ty = b.ty
            I.ops = [a, b, c]
        elif op in ("call", "invoke"):
            while p.pk() in FLAGS or p.pk() in CCONV:
                p.nx()
            I.x = {}
            p.skip_attrs()
            I.ty = p.ty()
            if I.ty.k == "fnty":
                I.ty = I.ty.el
            callee = p.val(PTR)
            p.ex("(")
            while not p.ac(")"):
                ty = p.ty()
                at = p.skip_attrs()
                if ty.k == "metadata":
                    d = 0
                    while True:
                        x = p.pk()
                        if d == 0 and x in (",", ")"):
                            break
                        d += (x == "(") - (x == ")")
                        p.nx()
                    I.ops.append(Val("meta", None, ty))
                else:
                    v = p.val(ty)
                    if "byval" in at:
                        v.x = at["byval"] if v.k != "cexpr" else v.x
                    I.ops.append(v)
                p.ac(",")
            I.x = callee
            if op == "invoke":
                m = re.search(r'to label (%(?:"[^"]*"|[-\w.$]+)) unwind label (%(?:"[^"]*"|[-\w.$]+))', ln)
                I.lab = [unq(m.group(1)), unq(m.group(2))]
        elif op == "extractvalue":
            a = p.tv()
            I.ops = [a]
            I.x = []
            while p.ac(","):
                I.x.append(int(p.nx()))
            I.ty = a.ty
        elif op == "insertvalue":
            a = p.tv()
            p.ex(",")
            b = p.tv()
            I.ops = [a, b]
            I.x = []
            while p.ac(","):
                I.x.append(int(p.nx()))
            I.ty = a.ty
        elif op == "extractelement":
            a = p.tv()
            p.ex(",")
            b = p.tv()
            I.ops = [a, b]
        elif op == "insertelement":
            a = p.tv()
            p.ex(",")
            b = p.tv()
            p.ex(",")
            c = p.tv()
            I.ops = [a, b, c]
            I.ty = a.ty
        elif op == "shufflevector":
            a = p.tv()
            p.ex(",")
            b = p.tv()
            p.ex(",")
            c = p.tv()
            I.ops = [a, b, c]
        elif op == "freeze":
            I.ops = [p.tv()]
            I.ty = I.ops[0].ty
        elif op == "atomicrmw":
            p.ac("volatile")
            I.x = p.nx()
            a = p.tv()
            p.ex(",")
            b = p.tv()
            I.ops = [a, b]
        elif op == "fence":
            return None
        elif op == "landingpad":
            I.ty = p.ty()
        elif op == "resume":
            I.ops = [p.tv()]
        elif op in ("va_arg", "cmpxchg", "indirectbr"):
            pass
        else:
            raise IRError("op %r" % op)
        return I

    # -------------------------------------------------------- debug info
    def loc(self, dbg):
        """(file, line) of innermost location"""
        if dbg is None or dbg not in self.md:
            return ("?", 0)
        k, s = self.md[dbg]
        m = re.search(r"line: (\d+)", s)
        line = int(m.group(1)) if m else 0
        m = re.search(r"scope: !(\d+)", s)
        f = "?"
        sc = int(m.group(1)) if m else None
        for _ in range(20):
            if sc is None or sc not in self.md:
                break
            k2, s2 = self.md[sc]
            m = re.search(r"\bfile: !(\d+)", s2)
            if m:
                fm = self.md.get(int(m.group(1)))
                if fm:
                    q = re.search(r'filename: "([^"]*)"', fm[1])
                    if q:
                        f = q.group(1)
                break
            m = re.search(r"scope: !(\d+)", s2)
            sc = int(m.group(1)) if m else None
        return (f, line)


def analyze(fn):
    """dominators + natural loops. loops: header -> set(blocks)"""
    succ = {}
    for b in fn.order:
        t = fn.blocks[b][-1] if fn.blocks[b] else None
        if t is None:
            succ[b] = []
        elif t.op == "br":
            succ[b] = list(dict.fromkeys(t.x))
        elif t.op == "invoke":
            succ[b] = list(dict.fromkeys(t.lab))
        elif t.op == "switch":
            succ[b] = list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
        else:
            succ[b] = []
    entry = fn.order[0]
    # RPO
    seen, post = set(), []
    st = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            new = ps[0]
            for p in ps[1:]:
                a, c = p, new
                while a != c:
                    while idx[a] > idx[c]:
                        a = idom[a]
                    while idx[c] > idx[a]:
                        c = idom[c]
                new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w += pred[x]
    fn.succ, fn.pred, fn.idom, fn.dom, fn.loops = succ, pred, idom, dom, loops
    fn.parent = {}
    return fn
