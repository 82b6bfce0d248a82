"""Parser for the textual LLVM IR (LLVM 18) that clang emits for the code in /repo.

Only the constructs met in the verified code are accepted; anything else raises
Unsupported, which the driver reports as 'undecided', never as a violation.
"""
import re, struct
from fractions import Fraction


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elem", "elems", "packed", "_sz")

    def __init__(self, k, n=0, elem=None, elems=None, packed=False):
        self.k, self.n, self.elem, self.elems, self.packed = k, n, elem, elems, packed
        self._sz = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "vec":
            return "<%d x %r>" % (self.n, self.elem)
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.elem)
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.elems))
        return self.k

    @property
    def isfloat(self):
        return self.k in ("half", "float", "double")

    def bits(self):
        if self.k == "int":
            return self.n
        return {"half": 16, "float": 32, "double": 64, "ptr": 64, "x86_fp80": 80}[self.k]


I1 = Ty("int", 1)
I8 = Ty("int", 8)
I32 = Ty("int", 32)
I64 = Ty("int", 64)
PTR = Ty("ptr")
VOID = Ty("void")
SIMPLE = {"half": Ty("half"), "float": Ty("float"), "double": Ty("double"), "ptr": PTR, "void": VOID,
          "label": Ty("label"), "metadata": Ty("metadata"), "x86_fp80": Ty("x86_fp80")}


def align_of(t):
    if t.k == "int":
        b = (t.n + 7) // 8
        a = 1
        while a < b:
            a *= 2
        return min(a, 16)
    if t.k in ("half",):
        return 2
    if t.k == "float":
        return 4
    if t.k in ("double", "ptr"):
        return 8
    if t.k == "arr":
        return align_of(t.elem)
    if t.k == "vec":
        return size_of(t)
    if t.k == "struct":
        return 1 if t.packed else max([align_of(e) for e in t.elems] or [1])
    raise Unsupported("align of %r" % t)


def size_of(t):
    if t._sz is not None:
        return t._sz
    if t.k == "int":
        b = (t.n + 7) // 8
        a = align_of(t)
        r = (b + a - 1) // a * a
    elif t.k in ("half", "float", "double", "ptr"):
        r = t.bits() // 8
    elif t.k == "arr":
        r = t.n * size_of(t.elem)
    elif t.k == "vec":
        r = t.n * t.elem.bits() // 8
        p = 1
        while p < r:
            p *= 2
        r = p
    elif t.k == "struct":
        r = struct_layout(t)[1]
    else:
        raise Unsupported("size of %r" % t)
    t._sz = r
    return r


def struct_layout(t):
    off = 0
    offs = []
    for e in t.elems:
        a = 1 if t.packed else align_of(e)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += size_of(e)
    a = align_of(t)
    off = (off + a - 1) // a * a
    return offs, off


# ---------------------------------------------------------------- values
class Val:
    """operand: kind in local, global, int, fp, null, undef, zero, agg, gep(constexpr)"""
    __slots__ = ("kind", "ty", "v")

    def __init__(self, kind, ty, v=None):
        self.kind, self.ty, self.v = kind, ty, v

    def __repr__(self):
        return "%s:%r:%r" % (self.kind, self.ty, self.v)


class Instr:
    __slots__ = ("op", "res", "ty", "ops", "x", "line", "flags")

    def __init__(self, op, res=None, ty=None, ops=(), x=None, line="", flags=()):
        self.op, self.res, self.ty, self.ops, self.x, self.line, self.flags = op, res, ty, list(ops), x, line, flags

    def __repr__(self):
        return self.line


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.succ = []
        self.pred = []


class Function:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []
        self.text = []


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*|:])
)''', re.X)


class Lex:
    def __init__(self, s, mod):
        self.s = s
        self.mod = mod
        self.toks = []
        pos = 0
        while pos < len(s):
            m = TOK.match(s, pos)
            if not m:
                if s[pos:].strip() == "":
                    break
                raise Unsupported("lex: %r" % s[pos:pos + 60])
            k = m.lastgroup
            self.toks.append((k, m.group(k)))
            pos = m.end()
        self.i = 0

    def peek(self, o=0):
        return self.toks[self.i + o][1] if self.i + o < len(self.toks) else None

    def kind(self, o=0):
        return self.toks[self.i + o][0] if self.i + o < len(self.toks) else None

    def next(self):
        t = self.toks[self.i][1]
        self.i += 1
        return t

    def eat(self, t):
        if self.peek() == t:
            self.i += 1
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise Unsupported("expected %r got %r in %s" % (t, self.peek(), self.s[:200]))

    # ---- types
    def type(self):
        t = self.peek()
        k = self.kind()
        if k == "word":
            if re.fullmatch(r"i\d+", t):
                self.next()
                r = Ty("int", int(t[1:]))
            elif t in SIMPLE:
                self.next()
                r = SIMPLE[t]
                if t == "ptr" and self.peek() == "addrspace":
                    raise Unsupported("addrspace")
            else:
                raise Unsupported("type %s in %s" % (t, self.s[:200]))
        elif t == "<":
            self.next()
            if self.peek() == "{":
                self.next()
                r = self._struct(True)
                self.need(">")
            else:
                n = int(self.next())
                self.need("x")
                e = self.type()
                self.need(">")
                r = Ty("vec", n, e)
        elif t == "[":
            self.next()
            n = int(self.next())
            self.need("x")
            e = self.type()
            self.need("]")
            r = Ty("arr", n, e)
        elif t == "{":
            self.next()
            r = self._struct(False)
        elif k == "local":
            self.next()
            r = self.mod.named_type(t)
        else:
            raise Unsupported("type at %r in %s" % (t, self.s[:200]))
        if self.peek() == "(":  # function type
            d = 0
            while True:
                x = self.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        break
        return r

    def _struct(self, packed):
        es = []
        while not self.eat("}"):
            es.append(self.type())
            self.eat(",")
        return Ty("struct", elems=es, packed=packed)

    # ---- values
    def value(self, ty):
        t = self.peek()
        k = self.kind()
        if k == "local":
            self.next()
            return Val("local", ty, t)
        if k == "glob":
            self.next()
            return Val("global", ty, t)
        if k == "num":
            self.next()
            if ty.k == "int":
                return Val("int", ty, int(t) & ((1 << ty.n) - 1))
            return Val("fp", ty, fpbits(t, ty))
        if t in ("true", "false"):
            self.next()
            return Val("int", ty, 1 if t == "true" else 0)
        if t in ("undef", "poison"):
            self.next()
            return Val("undef", ty)
        if t == "null":
            self.next()
            return Val("null", ty)
        if t == "zeroinitializer":
            self.next()
            return Val("zero", ty)
        if t in ("<", "[", "{"):
            self.next()
            close = {"<": ">", "[": "]", "{": "}"}[t]
            if t == "<" and self.peek() == "{":
                self.next()
                close = "}"
                vs = []
                while not self.eat("}"):
                    vs.append(self.tv())
                    self.eat(",")
                self.need(">")
                return Val("agg", ty, vs)
            vs = []
            while not self.eat(close):
                vs.append(self.tv())
                self.eat(",")
            return Val("agg", ty, vs)
        if k == "str" and t.startswith("c"):
            self.next()
            return Val("cstr", ty, t)
        if t == "getelementptr":
            self.next()
            self.eat("inbounds")
            self.need("(")
            bt = self.type()
            self.need(",")
            base = self.tv()
            idx = []
            while self.eat(","):
                self.eat("inrange")
                idx.append(self.tv())
            self.need(")")
            return Val("cgep", ty, (bt, base, idx))
        if t == "splat":
            self.next()
            self.need("(")
            v = self.tv()
            self.need(")")
            return Val("agg", ty, [v] * ty.n)
        raise Unsupported("value %r in %s" % (t, self.s[:300]))

    PATTR = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "noalias", "signext", "zeroext",
             "returned", "immarg", "inreg", "nofree", "nest", "noext", "swiftself", "inbounds", "writable", "allocptr", "allocalign"}

    def pattrs(self):
        out = {}
        while True:
            t = self.peek()
            if t in self.PATTR:
                self.next()
            elif t == "align":
                self.next()
                self.next()
            elif t in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "elementtype", "memory", "captures"):
                self.next()
                if self.eat("("):
                    if t in ("sret", "byval", "elementtype"):
                        out[t] = self.type()
                        self.need(")")
                    else:
                        while not self.eat(")"):
                            self.next()
            else:
                return out

    def tv(self):
        ty = self.type()
        a = self.pattrs()
        if ty.k == "metadata":
            # skip metadata operand
            d = 0
            while self.peek() is not None and not (d == 0 and self.peek() in (",", ")")):
                x = self.next()
                if x in "({[":
                    d += 1
                elif x in ")}]":
                    d -= 1
            return Val("meta", ty)
        return self.value(ty)


def fpbits(t, ty):
    """bit pattern of an fp constant as printed by LLVM"""
    if t.startswith("0xH"):
        return int(t[3:], 16)
    if t.startswith("0x"):
        d = int(t[2:], 16)
        if ty.k == "double":
            return d
        f = struct.unpack("<d", struct.pack("<Q", d))[0]
    else:
        f = float(t)
    return float_to_bits(f, ty.k)


def float_to_bits(f, k):
    if k == "double":
        return struct.unpack("<Q", struct.pack("<d", f))[0]
    if k == "float":
        return struct.unpack("<I", struct.pack("<f", f))[0]
    return struct.unpack("<H", struct.pack("<e", f))[0]


def bits_to_float(b, w):
    if w == 64:
        return struct.unpack("<d", struct.pack("<Q", b))[0]
    if w == 32:
        return struct.unpack("<f", struct.pack("<I", b))[0]
    return struct.unpack("<e", struct.pack("<H", b))[0]


def unq(n):
    return n


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr",
         "bitcast"}
FLAGS = {"nsw", "nuw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}


class Module:
    def __init__(self, text):
        self.types = {}
        self.typedefs = {}
        self.globals = {}
        self.functions = {}
        self.declares = set()
        self._parse(text)

    def named_type(self, n):
        if n in self.types:
            return self.types[n]
        if n not in self.typedefs:
            raise Unsupported("named type " + n)
        d = self.typedefs[n]
        if d == "opaque":
            raise Unsupported("opaque type")
        t = Lex(d, self).type()
        self.types[n] = t
        return t

    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        fnlines = []
        while i < len(lines):
            l = lines[i]
            if l.startswith("%"):
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)', l)
                if m:
                    self.typedefs[m.group(1)] = m.group(2)
            elif l.startswith("@"):
                m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)', l)
                self.globals[m.group(1)] = m.group(2)
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                fnlines.append((l, lines[i + 1:j]))
                i = j
            i += 1
        for h, b in fnlines:
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', h)
            self.functions[m.group(1)] = (h, b)

    def global_init(self, name):
        """(type, Val, constant?) of a global initialiser"""
        d = self.globals[name]
        m = re.search(r'\b(constant|global)\s+(.*)', d)
        lx = Lex(re.sub(r', (align|comdat|section).*', '', m.group(2)), self)
        ty = lx.type()
        v = lx.value(ty) if lx.peek() is not None else None
        return ty, v, m.group(1) == "constant"

    def function(self, name):
        h, body = self.functions[name]
        hh = h.split("@", 1)
        lx = Lex(hh[0][len("define"):], self)
        skip = {"dso_local", "linkonce_odr", "internal", "weak_odr", "hidden", "local_unnamed_addr", "private",
                "external", "fastcc", "noundef", "signext", "zeroext", "weak", "available_externally", "nonnull"}
        while True:
            t = lx.peek()
            if t in skip:
                lx.next()
            elif t in ("align",):
                lx.next(); lx.next()
            elif t in ("dereferenceable", "range"):
                lx.next()
                while lx.next() != ")":
                    pass
            else:
                break
        ret = lx.type()
        rest = hh[1]
        m = re.match(r'("[^"]*"|[-\w$.]+)\(', rest)
        lx = Lex(rest[m.end():], self)
        params = []
        n = 0
        while not lx.eat(")"):
            if lx.eat("..."):
                raise Unsupported("varargs")
            ty = lx.type()
            at = lx.pattrs()
            if lx.kind() == "local":
                nm = lx.next()
            else:
                nm = "%%%d" % n
            params.append((nm, ty, at))
            n += 1
            lx.eat(",")
        f = Function(name, ret, params)
        # entry label
        unnamed = sum(1 for p in params if re.fullmatch(r"%\d+", p[0]))
        cur = None
        k = 0
        while k < len(body):
            l = body[k]
            k += 1
            if not l.strip() or l.startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[-\w$.]+):', l)
            if m:
                cur = Block("%" + m.group(1))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block("%%%d" % unnamed)
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            s = l.strip()
            if s.startswith("switch") and not s.endswith("]"):
                while not body[k].strip().endswith("]"):
                    s += " " + body[k].strip()
                    k += 1
                s += " " + body[k].strip()
                k += 1
            f.text.append(s)
            cur.instrs.append(s)
        for b in f.blocks.values():
            b.instrs = [self.parse_instr(s) for s in b.instrs]
            t = b.instrs[-1]
            if t.op == "br":
                b.succ = [x for x in t.x]
            elif t.op == "switch":
                b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
        for b in f.blocks.values():
            for s in dict.fromkeys(b.succ):
                f.blocks[s].pred.append(b.name)
        return f

    def parse_instr(self, s):
        raw = s
        # strip trailing metadata
        s = re.sub(r'(, ![-\w$.]+ ![-\w$.]*)+$', '', s)
        s = re.sub(r'(, ![-\w$.]+ !\{[^}]*\})+$', '', s)
        lx = Lex(s, self)
        res = None
        if lx.kind() == "local" and lx.peek(1) == "=":
            res = lx.next()
            lx.next()
        op = lx.next()
        if op in ("tail", "musttail", "notail"):
            op = lx.next()
        I = Instr(op, res, line=raw)
        if op in BINOPS:
            fl = []
            while lx.peek() in FLAGS:
                fl.append(lx.next())
            ty = lx.type()
            a = lx.value(ty)
            lx.need(",")
            b = lx.value(ty)
            I.ty, I.ops, I.flags = ty, [a, b], fl
        elif op == "fneg":
            while lx.peek() in FLAGS:
                lx.next()
            ty = lx.type()
            I.ty, I.ops = ty, [lx.value(ty)]
        elif op in CASTS:
            fl = []
            while lx.peek() in FLAGS:
                fl.append(lx.next())
            v = lx.tv()
            lx.need("to")
            I.ops, I.ty, I.flags = [v], lx.type(), fl
        elif op in ("icmp", "fcmp"):
            while lx.peek() in FLAGS:
                lx.next()
            I.x = lx.next()
            ty = lx.type()
            a = lx.value(ty)
            lx.need(",")
            b = lx.value(ty)
            I.ops = [a, b]
            I.ty = Ty("vec", ty.n, I1) if ty.k == "vec" else I1
        elif op == "ret":
            ty = lx.type()
            if ty.k != "void":
                I.ops = [lx.value(ty)]
        elif op == "br":
            if lx.eat("label"):
                I.x = [lx.next()]
            else:
                c = lx.tv()
                lx.need(",")
                lx.need("label")
                a = lx.next()
                lx.need(",")
                lx.need("label")
                b = lx.next()
                I.ops, I.x = [c], [a, b]
        elif op == "switch":
            v = lx.tv()
            lx.need(",")
            lx.need("label")
            d = lx.next()
            lx.need("[")
            cases = []
            while not lx.eat("]"):
                cv = lx.tv()
                lx.need(",")
                lx.need("label")
                cases.append((cv.v, lx.next()))
            I.ops, I.x = [v], (d, cases)
        elif op == "unreachable":
            pass
        elif op == "phi":
            while lx.peek() in FLAGS:
                lx.next()
            ty = lx.type()
            inc = []
            while True:
                lx.need("[")
                v = lx.value(ty)
                lx.need(",")
                b = lx.next()
                lx.need("]")
                inc.append((v, b))
                if not lx.eat(","):
                    break
            I.ty, I.x = ty, inc
        elif op == "select":
            while lx.peek() in FLAGS:
                lx.next()
            c = lx.tv()
            lx.need(",")
            a = lx.tv()
            lx.need(",")
            b = lx.tv()
            I.ops, I.ty = [c, a, b], a.ty
        elif op == "alloca":
            lx.eat("inalloca")
            ty = lx.type()
            cnt = None
            if lx.eat(","):
                if lx.peek() != "align":
                    cnt = lx.tv()
            I.ty, I.x = ty, cnt
        elif op == "load":
            lx.eat("volatile")
            ty = lx.type()
            lx.need(",")
            I.ty, I.ops = ty, [lx.tv()]
        elif op == "store":
            lx.eat("volatile")
            v = lx.tv()
            lx.need(",")
            I.ops = [v, lx.tv()]
        elif op == "getelementptr":
            fl = []
            while lx.peek() in ("inbounds", "nuw", "nusw"):
                fl.append(lx.next())
            bt = lx.type()
            lx.need(",")
            base = lx.tv()
            idx = []
            while lx.eat(","):
                idx.append(lx.tv())
            I.ty, I.ops, I.x, I.flags = PTR, [base] + idx, bt, fl
        elif op == "extractelement":
            a = lx.tv()
            lx.need(",")
            b = lx.tv()
            I.ops, I.ty = [a, b], a.ty.elem
        elif op == "insertelement":
            a = lx.tv()
            lx.need(",")
            b = lx.tv()
            lx.need(",")
            c = lx.tv()
            I.ops, I.ty = [a, b, c], a.ty
        elif op == "shufflevector":
            a = lx.tv()
            lx.need(",")
            b = lx.tv()
            lx.need(",")
            c = lx.tv()
            I.ops, I.ty = [a, b, c], Ty("vec", c.ty.n, a.ty.elem)
        elif op == "extractvalue":
            a = lx.tv()
            idx = []
            while lx.eat(","):
                idx.append(int(lx.next()))
            t = a.ty
            for j in idx:
                t = t.elems[j] if t.k == "struct" else t.elem
            I.ops, I.x, I.ty = [a], idx, t
        elif op == "insertvalue":
            a = lx.tv()
            lx.need(",")
            b = lx.tv()
            idx = []
            while lx.eat(","):
                idx.append(int(lx.next()))
            I.ops, I.x, I.ty = [a, b], idx, a.ty
        elif op == "freeze":
            v = lx.tv()
            I.ops, I.ty = [v], v.ty
        elif op in ("call", "invoke"):
            if op == "invoke":
                raise Unsupported("invoke")
            while True:
                t = lx.peek()
                if t in FLAGS or t in ("fastcc", "noundef", "nonnull", "noalias", "signext", "zeroext"):
                    lx.next()
                elif t == "align":
                    lx.next(); lx.next()
                elif t in ("dereferenceable", "dereferenceable_or_null", "range"):
                    lx.next()
                    while lx.next() != ")":
                        pass
                else:
                    break
            ty = lx.type()
            callee = lx.next()
            if not callee.startswith("@"):
                raise Unsupported("indirect call: " + raw)
            lx.need("(")
            args = []
            while not lx.eat(")"):
                args.append(lx.tv())
                lx.eat(",")
            I.ty, I.ops, I.x = ty, args, callee[1:]
        elif op in ("fence",):
            pass
        else:
            raise Unsupported("instruction: " + raw)
        return I


# ---------------------------------------------------------------- CFG
def rpo(f):
    seen, out = set(), []
    entry = f.order[0]
    st = [(entry, iter(f.blocks[entry].succ))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succ)))
                break
        else:
            out.append(b)
            st.pop()
    out.reverse()
    return out


def dominators(f, order):
    idx = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True

    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]:
                a = idom[a]
            while idx[b] > idx[a]:
                b = idom[b]
        return a

    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in f.blocks[b].pred if p in idom]
            n = ps[0]
            for p in ps[1:]:
                n = inter(n, p)
            if idom.get(b) != n:
                idom[b] = n
                ch = True
    return idom


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.latches = []
        self.parent = None


def loops(f):
    order = rpo(f)
    idom = dominators(f, order)
    idx = {b: i for i, b in enumerate(order)}

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == order[0]:
                return False
            b = idom[b]

    L = {}
    for b in order:
        for s in f.blocks[b].succ:
            if idx[s] <= idx[b]:
                if not dom(s, b):
                    raise Unsupported("irreducible control flow")
                l = L.setdefault(s, Loop(s))
                l.latches.append(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x not in l.blocks:
                        l.blocks.add(x)
                        st.extend(p for p in f.blocks[x].pred if p in idx)
    for h, l in L.items():
        best = None
        for h2, l2 in L.items():
            if h2 != h and h in l2.blocks and (best is None or len(l2.blocks) < len(best.blocks)):
                best = l2
        l.parent = best
    return order, idom, L
