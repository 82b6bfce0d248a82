"""Floating point in the verifier.

Carriers are bit-vectors.  Two interpretations are available per contract:

 * 'uf'   every operation is an uninterpreted function on the carrier; next to it each carrier has a real value
          val(x), and each operation carries the exact real-arithmetic law (val(x+y) = val x + val y ...).  Products of
          non-constants are kept in polynomial normal form over an uninterpreted commutative product.  Rounding,
          overflow, NaN and signed zero are therefore idealised away (reported as an assumption).
 * 'ieee' every operation is the IEEE-754 operation (z3 FloatingPoint theory, round to nearest even).
"""
from fractions import Fraction
import z3
from .ir import bits_to_float, float_to_bits

R = z3.RealSort()
rmul = z3.Function("rmul", R, R, R)
rinv = z3.Function("rinv", R, R)
i2r_f = z3.Function("i2r", z3.BitVecSort(64), R)
u2r_f = z3.Function("u2r", z3.BitVecSort(64), R)
rnd = {16: z3.Function("round16", R, R), 32: z3.Function("round32", R, R)}
FSORT = {16: z3.FPSort(5, 11), 32: z3.FPSort(8, 24), 64: z3.FPSort(11, 53)}
RNE = z3.RNE()

MAXTERMS = 400


class Poly:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t  # {tuple of atom ids: Fraction}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    def isconst(self):
        return all(k == () for k in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def add(self, o, s=1):
        r = dict(self.t)
        for k, v in o.t.items():
            x = r.get(k, 0) + s * v
            if x:
                r[k] = x
            else:
                r.pop(k, None)
        return Poly(r)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.t.items()}) if c else Poly({})

    def mul(self, o):
        r = {}
        for k, v in self.t.items():
            for k2, v2 in o.t.items():
                m = tuple(sorted(k + k2))
                x = r.get(m, 0) + v * v2
                if x:
                    r[m] = x
                else:
                    r.pop(m, None)
        return Poly(r)


class FP:
    def __init__(self, mode="uf"):
        self.mode = mode
        self.opaque_div = False
        self.atoms = {}
        self.polys = {}      # carrier ast id -> Poly
        self.keep = []       # keep asts alive
        self.axioms = []
        self.axset = set()
        self.vcache = {}
        self.funs = {}
        self.rpoly = {}      # real ast id -> Poly

    # ------------------------------------------------------------ polynomials
    def atom(self, term):
        if z3.is_rational_value(term):
            return Poly.const(term.as_fraction())
        i = term.get_id()
        if i in self.rpoly:
            return self.rpoly[i]
        self.atoms[i] = term
        p = Poly({(i,): Fraction(1)})
        self.rpoly[i] = p
        return p

    def mono(self, m):
        if len(m) == 1:
            return self.atoms[m[0]]
        r = self.atoms[m[-1]]
        for a in reversed(m[:-1]):
            x = self.atoms[a]
            t = rmul(x, r)
            if t.get_id() not in self.axset:
                self.axset.add(t.get_id())
                self.keep.append(t)
                self.axioms.append(t == rmul(r, x))
            r = t
        return r

    def term(self, p):
        if not p.t:
            return z3.RealVal(0)
        ts = []
        for m in sorted(p.t):
            c = p.t[m]
            if m == ():
                ts.append(z3.RealVal(c))
            elif c == 1:
                ts.append(self.mono(m))
            else:
                ts.append(z3.RealVal(c) * self.mono(m))
        t = ts[0] if len(ts) == 1 else z3.Sum(ts)
        self.rpoly[t.get_id()] = p
        self.keep.append(t)
        return t

    def pmul(self, a, b):
        if a.isconst():
            return b.scale(a.cval())
        if b.isconst():
            return a.scale(b.cval())
        if len(a.t) * len(b.t) > MAXTERMS:
            return self.atom(self.commul(self.term(a), self.term(b)))
        return a.mul(b)

    def commul(self, x, y):
        t = rmul(x, y)
        self.keep.append(t)
        if t.get_id() not in self.axset:
            self.axset.add(t.get_id())
            self.axioms.append(t == rmul(y, x))
        return t

    def pinv(self, b):
        if b.isconst():
            if b.cval() == 0:
                return self.atom(rinv(z3.RealVal(0)))
            return Poly.const(1 / b.cval())
        if len(b.t) == 1:
            (m, c), = b.t.items()
            r = Poly.const(1 / c)
            for a in m:
                t = rinv(self.atoms[a])
                self.keep.append(t)
                r = self.pmul(r, self.atom(t))
            return r
        # normalise the leading coefficient so that k*p and p have related inverses
        c = b.t[min(b.t)]
        t = rinv(self.term(b.scale(1 / c)))
        self.keep.append(t)
        return self.atom(t).scale(1 / c)

    # ------------------------------------------------------------ real value of a carrier
    def valf(self, w):
        return z3.Function("val%d" % w, z3.BitVecSort(w), R)

    def poly(self, x):
        i = x.get_id()
        if i in self.polys:
            return self.polys[i]
        w = x.size()
        if z3.is_bv_value(x):
            f = bits_to_float(x.as_long(), w)
            if f != f or f in (float("inf"), float("-inf")):
                p = self.atom(self.valf(w)(x))
            else:
                p = Poly.const(Fraction(f))
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            c, a, b = x.children()
            pa, pb = self.poly(a), self.poly(b)
            if pa.t == pb.t:
                p = pa
            else:
                t = z3.If(c, self.term(pa), self.term(pb))
                self.keep.append(t)
                p = self.atom(t)
                self.ax(self.valf(w)(x) == t)
        else:
            t = self.valf(w)(x)
            self.keep.append(t)
            p = self.atom(t)
        self.polys[i] = p
        self.keep.append(x)
        return p

    def val(self, x):
        return self.term(self.poly(x))

    def ax(self, f):
        if f.get_id() not in self.axset:
            self.axset.add(f.get_id())
            self.keep.append(f)
            self.axioms.append(f)

    def reg(self, t, p):
        """register carrier term t with exact real value p"""
        if t.get_id() not in self.polys:
            self.polys[t.get_id()] = p
            self.keep.append(t)
            self.ax(self.valf(t.size())(t) == self.term(p))
        return t

    def fun(self, name, *ws):
        k = (name,) + ws
        if k not in self.funs:
            self.funs[k] = z3.Function("_".join([name] + [str(w) for w in ws[:-1]]),
                                       *[z3.BitVecSort(w) for w in ws])
        return self.funs[k]

    # ------------------------------------------------------------ operations
    def fpv(self, x):
        return z3.fpBVToFP(x, FSORT[x.size()])

    def bv(self, f):
        return z3.fpToIEEEBV(f)

    def bin(self, op, a, b):
        w = a.size()
        if self.mode == "ieee":
            f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op]
            return self.bv(f(RNE, self.fpv(a), self.fpv(b)))
        t = self.fun(op, w, w, w)(a, b)
        if t.get_id() in self.polys:
            return t
        pa, pb = self.poly(a), self.poly(b)
        if op == "fadd":
            p = pa.add(pb)
        elif op == "fsub":
            p = pa.add(pb, -1)
        elif op == "fmul":
            p = self.pmul(pa, pb)
        elif op == "fdiv":
            p = self.pmul(pa, self.pinv(pb))
            if self.opaque_div and not pb.isconst():
                # keep the quotient as one atom: its use in products then follows from congruence
                self.polys[t.get_id()] = self.atom(self.valf(w)(t))
                self.keep.append(t)
                self.ax(self.valf(w)(t) == self.term(p))
                return t
        else:
            return t
        return self.reg(t, p)

    def neg(self, a):
        w = a.size()
        if self.mode == "ieee":
            return a ^ z3.BitVecVal(1 << (w - 1), w)
        t = self.fun("fneg", w, w)(a)
        return self.reg(t, self.poly(a).scale(-1))

    def fabs(self, a):
        w = a.size()
        if self.mode == "ieee":
            return a & z3.BitVecVal((1 << (w - 1)) - 1, w)
        t = self.fun("fabs", w, w)(a)
        if t.get_id() in self.polys:
            return t
        return self.reg(t, self.atom(self.rabs(self.val(a))))

    def rabs(self, v):
        return z3.If(v >= 0, v, -v)

    def cmp(self, pred, a, b):
        if pred == "true":
            return z3.BoolVal(True)
        if pred == "false":
            return z3.BoolVal(False)
        if self.mode == "ieee":
            x, y = self.fpv(a), self.fpv(b)
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            if pred == "ord":
                return z3.Not(un)
            if pred == "uno":
                return un
            base = {"eq": z3.fpEQ(x, y), "ne": z3.Not(z3.fpEQ(x, y)), "gt": z3.fpGT(x, y), "ge": z3.fpGEQ(x, y),
                    "lt": z3.fpLT(x, y), "le": z3.fpLEQ(x, y)}[pred[1:]]
            if pred == "one":
                return z3.And(base, z3.Not(un))
            if pred == "une":
                return base
            return base if pred[0] == "o" else z3.Or(un, base)
        if pred == "ord":
            return z3.BoolVal(True)
        if pred == "uno":
            return z3.BoolVal(False)
        d = self.poly(a).add(self.poly(b), -1)
        if d.isconst():
            c = d.cval()
            return z3.BoolVal({"eq": c == 0, "ne": c != 0, "gt": c > 0, "ge": c >= 0, "lt": c < 0, "le": c <= 0}[pred[1:]])
        x, y = self.val(a), self.val(b)
        return {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred[1:]]

    def ext(self, a, w2):
        if self.mode == "ieee":
            return self.bv(z3.fpFPToFP(RNE, self.fpv(a), FSORT[w2]))
        t = self.fun("fpext", a.size(), w2)(a)
        return self.reg(t, self.poly(a))

    def trunc(self, a, w2):
        if self.mode == "ieee":
            return self.bv(z3.fpFPToFP(RNE, self.fpv(a), FSORT[w2]))
        # rounding to a narrower format is kept visible: it is *not* the identity on values,
        # except on something that was just widened from that format
        if z3.is_app(a) and a.decl().name() == "fpext_%d" % w2:
            return a.children()[0]
        t = self.fun("fptrunc", a.size(), w2)(a)
        if t.get_id() in self.polys:
            return t
        return self.reg(t, self.atom(self.round_to(w2, self.val(a))))

    def round_to(self, w, v):
        if z3.is_rational_value(v):
            f = bits_to_float(float_to_bits(float(v.as_fraction()), {16: "half", 32: "float", 64: "double"}[w]), w)
            return z3.RealVal(Fraction(f))
        return rnd[w](v)

    def i2r(self, x, signed=True):
        """real value of an integer bit-vector"""
        w = x.size()
        if z3.is_bv_value(x):
            return z3.RealVal(x.as_signed_long() if signed else x.as_long())
        if w < 64:
            x = z3.SignExt(64 - w, x) if signed else z3.ZeroExt(64 - w, x)
            signed = True
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return z3.RealVal(x.as_signed_long() if signed else x.as_long())
        t = i2r_f(x)
        self.keep.append(t)
        if getattr(self, "i2r_zero", False):
            self.ax(z3.Implies(x == 0, t == 0))
        if not signed:
            u = u2r_f(x)
            self.keep.append(u)
            self.ax(z3.Implies(x >= 0, u == t))
            return u
        return t

    def fromint(self, x, w, signed):
        if self.mode == "ieee":
            f = z3.fpSignedToFP if signed else z3.fpUnsignedToFP
            return self.bv(f(RNE, x, FSORT[w]))
        t = self.fun("sitofp" if signed else "uitofp", x.size(), w)(x)
        if t.get_id() in self.polys:
            return t
        return self.reg(t, self.atom(self.i2r(x, signed)))

    def toint(self, a, w, signed):
        """returns (value, in-range condition or None)"""
        if self.mode == "ieee":
            f = self.fpv(a)
            srt = FSORT[a.size()]
            if signed:
                lo = z3.FPVal(-(2.0 ** (w - 1)), srt)
                hi = z3.FPVal(2.0 ** (w - 1), srt)
                # trunc(f) in range  <=>  f > -2^(w-1) - 1  and f < 2^(w-1); for w-1 >= mantissa bits the lower test is >= lo
                if w - 1 >= srt.sbits():
                    ok = z3.And(z3.fpGEQ(f, lo), z3.fpLT(f, hi))
                else:
                    ok = z3.And(z3.fpGT(f, z3.FPVal(-(2.0 ** (w - 1)) - 1, srt)), z3.fpLT(f, hi))
                return z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(w)), ok
            ok = z3.And(z3.fpGT(f, z3.FPVal(-1.0, srt)), z3.fpLT(f, z3.FPVal(2.0 ** w, srt)))
            return z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(w)), ok
        nm = "fptosi" if signed else "fptoui"
        return self.fun(nm, a.size(), w)(a), None

    def rfun(self, name, n=1):
        return z3.Function("m_" + name, *([R] * (n + 1)))

    def libm(self, name, args):
        """uninterpreted mathematical function of the real values"""
        ws = [a.size() for a in args]
        if self.mode == "ieee":
            if name == "sqrt":
                return self.bv(z3.fpSqrt(RNE, self.fpv(args[0])))
            return self.fun("m_" + name, *ws, ws[0])(*args)
        t = self.fun("m_" + name, *ws, ws[0])(*args)
        if t.get_id() in self.polys:
            return t
        if name == "hypot":
            a, b = self.poly(args[0]), self.poly(args[1])
            return self.reg(t, self.atom(self.rlib("sqrt", self.term(self.pmul(a, a).add(self.pmul(b, b))))))
        if name == "pow":
            e = self.poly(args[1])
            if e.isconst() and e.cval().denominator == 1 and 0 <= e.cval() <= 4:
                r = Poly.const(1)
                for _ in range(int(e.cval())):
                    r = self.pmul(r, self.poly(args[0]))
                return self.reg(t, r)
        return self.reg(t, self.atom(self.rlib(name, *[self.val(a) for a in args])))

    def lround(self, a):
        """the nearest integer (either of the two at a tie), as long as it is representable"""
        if self.mode == "ieee":
            return self.fun("lround", a.size(), 64)(a)
        return self.lround_r(self.term(self.poly(a)))

    def lround_r(self, x):
        q = z3.Function("m_lround", R, z3.BitVecSort(64))(x)
        t = self.i2r(q)
        half = z3.RealVal("1/2")
        self.ax(z3.Implies(z3.And(x >= -(1 << 62), x <= 1 << 62), z3.And(t - x <= half, x - t <= half)))
        for w in (8, 16, 32):
            m = (1 << w - 1) - 1
            self.ax(z3.Implies(z3.And(x >= -m, x <= m), z3.And(q >= -m, q <= m)))
        self.ax(z3.Implies(x == 0, q == 0))
        return q

    def rlib(self, name, *rs):
        t = self.rfun(name, len(rs))(*rs)
        self.keep.append(t)
        return t

    def maxmin(self, ismax, a, b):
        if self.mode == "ieee":
            f = z3.fpMax if ismax else z3.fpMin
            return self.bv(f(self.fpv(a), self.fpv(b)))
        c = self.cmp("olt", a, b)
        return z3.If(c, b, a) if ismax else z3.If(c, a, b)

    def const(self, f, w):
        return z3.BitVecVal(float_to_bits(f, {16: "half", 32: "float", 64: "double"}[w]), w)
