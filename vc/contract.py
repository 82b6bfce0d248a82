"""Contracts: what a function may assume, what it must ensure, and which spec functions its loops are measured against."""
from fractions import Fraction
import re
import z3
from .fp import FP, Poly
from .mem import Base, Region, Ptr, norm, lin
from .ir import Unsupported

BV = z3.BitVecVal


def c64(n):
    return z3.BitVecVal(n, 64)


class RV:
    """a real number in polynomial normal form"""

    def __init__(self, fp, p):
        self.fp, self.p = fp, p

    def _c(self, o):
        if isinstance(o, RV):
            return o.p
        if isinstance(o, (int, float, Fraction)):
            return Poly.const(Fraction(o))
        return self.fp.atom(o)

    def __add__(self, o):
        return RV(self.fp, self.p.add(self._c(o)))
    __radd__ = __add__

    def __sub__(self, o):
        return RV(self.fp, self.p.add(self._c(o), -1))

    def __rsub__(self, o):
        return RV(self.fp, Poly(self._c(o).t).add(self.p, -1))

    def __neg__(self):
        return RV(self.fp, self.p.scale(-1))

    def __mul__(self, o):
        return RV(self.fp, self.fp.pmul(self.p, self._c(o)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return RV(self.fp, self.fp.pmul(self.p, self.fp.pinv(self._c(o))))

    def __rtruediv__(self, o):
        return RV(self.fp, self.fp.pmul(self._c(o), self.fp.pinv(self.p)))

    def t(self):
        return self.fp.term(self.p)

    def eq(self, o):
        d = self.p.add(self._c(o), -1)
        if not d.t:
            return z3.BoolVal(True)
        return self.t() == self.fp.term(self._c(o))


class Arr:
    def __init__(self, c, region):
        self.c, self.r = c, region
        self.n = region.size

    def pre(self, k):
        return self.r.base.read(norm(k))

    def at(self, S, k):
        n = S.mem.get(self.r, self.r.base)
        return n.read(norm(k))

    # real value views
    def rpre(self, k):
        return self.c.rv(self.pre(k))

    def rat(self, S, k):
        return self.c.rv(self.at(S, k))


class Forall:
    """for all k with cond(k): pred(S, k), where S is a memory state"""

    def __init__(self, name, ks, cond, pred, arrs, pos, frame_only=False):
        self.name, self.ks, self.cond, self.pred, self.arrs, self.pos = name, ks, cond, pred, arrs, pos
        self.frame_only = frame_only
        self.frame = True       # also guess that elements keep their value
        self.noauto = False     # no generic candidate invariants from this one
        self.pure = not arrs


class Fold:
    """spec recursion F(0)=init, F(i+1)=step(i, F(i)); unfolded on demand at the terms that occur"""

    def __init__(self, c, name, init, step, real=True, bits=64):
        self.c, self.name, self.init, self.step, self.real = c, name, init, step, real
        self.f = z3.Function("fold_" + name, z3.BitVecSort(64), z3.RealSort() if real else z3.BitVecSort(bits))
        self.done = {}
        c.folds.append(self)

    def raw(self, i):
        return self.f(norm(i))

    def at(self, i, unfold=True):
        i = norm(i)
        t = self.f(i)
        if unfold and i.get_id() not in self.done:
            self.done[i.get_id()] = i
            nx = self.f(norm(i + c64(1)))
            st = self.step(i, RV(self.c.fp, self.c.fp.atom(t)) if self.real else t)
            st = st.t() if isinstance(st, RV) else st
            self.c.spec_axioms.append(nx == st)
        return RV(self.c.fp, self.c.fp.atom(t)) if self.real else t

    def start(self, at=None):
        i = self.init
        i = i.t() if isinstance(i, RV) else (z3.RealVal(i) if self.real and isinstance(i, (int, float)) else i)
        self.c.spec_axioms.append(self.f(c64(0) if at is None else norm(at)) == i)
        return self


class Post:
    def __init__(self, ret, mem):
        self.ret, self.mem = ret, mem


class Ctx:
    """one instantiation of a contract (argument layout, aliasing)"""

    def __init__(self, fpmode="uf"):
        self.fp = FP(fpmode)
        self.args = []
        self.argnames = []
        self.mem0 = {}
        self.req = []
        self.posts = []      # (name, fn(Post)->Bool)
        self.foralls = []
        self.heap_specs = []
        self.aux_foralls = []
        self.folds = []
        self.spec_axioms = []
        self.callees = []    # (regex, handler)
        self.hints = []      # fn(ex, li) -> list of (name, fn(LState)->Bool)
        self.symbols = []
        self.instantiate = False
        self.extra_inst = []
        self.covers = []     # conditions that must be reachable at return
        self.mul_exact = False
        self.stage_hooks = []
        self.case_hook = None    # fn(ex, li) -> conditions on which preservation is split
        self.smt_lemmas = None   # proves the lemmas whose instances the contract uses
        self.mul_used = False
        self.mul_axioms = []
        self.div_abstract = False   # quotients and remainders by a variable are described by lemmas first
        self._mulseen = {}
        self.flat = True     # guess invariants about positions in a dense matrix
        self.grids = []      # (rows, row length, elements)

    # ---- arguments
    def i(self, name, bits=64):
        v = z3.BitVec(name, bits)
        self.args.append(v)
        self.argnames.append(name)
        self.symbols.append((name, v))
        return v

    def b(self, name):
        v = z3.Bool(name)
        self.args.append(v)
        self.symbols.append((name, v))
        return v

    f = i

    def arr(self, name, bits, n, writable=False, off=0):
        n = c64(n) if isinstance(n, int) else n
        r = Region(name, bits // 8, n, writable)
        fn = z3.Function("A_" + name, z3.BitVecSort(64), z3.BitVecSort(bits))
        r.base = Base(fn, name)
        self.mem0[r] = r.base
        self.args.append(Ptr.single(r, c64(off * (bits // 8)) if isinstance(off, int) else norm(off * c64(bits // 8))))
        self.argnames.append(name)
        a = Arr(self, r)
        self.symbols.append((name, a))
        return a

    def same(self, a, off=0):
        """pass the same array again (in-place use)"""
        a.r.writable = True
        self.args.append(Ptr.single(a.r, c64(off * a.r.elem) if isinstance(off, int) else norm(off * c64(a.r.elem))))
        return a

    def requires(self, *fs):
        self.req += fs

    def requires_each(self, a, pred):
        """precondition pred(i) for every index i; instantiated at every index of array a that is read"""
        old = a.r.base.hook

        def hook(i):
            if old:
                old(i)
            self.spec_axioms.append(pred(i))
        a.r.base.hook = hook

    def ensures(self, name, fn):
        self.posts.append((name, fn))

    def forall(self, name, cond, pred, arrs=(), nk=1, pos=None, frame_only=False):
        ks = [z3.BitVec("k%d_%s" % (j, re.sub(r'\W', '_', name)), 64) for j in range(nk)]
        e = Forall(name, ks, cond, pred, list(arrs), pos, frame_only)
        self.foralls.append(e)
        return e

    def heap_forall(self, E, bits, pred, pos=None, cond=None, frame=True):
        """candidate invariant for allocated buffers: like E, for the same position k, over elements of the given width; pred(arr, S, k)"""
        self.heap_specs.append((E, bits, pred, pos, cond, frame))

    def bind_heaps(self, ex):
        for r in ex.heaps.values():
            for E, bits, pred, pos, cond, frame in self.heap_specs:
                if r.elem * 8 == bits:
                    a = Arr(self, r)
                    f = Forall("%s (%s)" % (E.name, r.name), E.ks, cond or E.cond, lambda S, *k, a=a, pred=pred: pred(a, S, *k), [a], pos or E.pos)
                    f.frame = frame
                    self.aux_foralls.append(f)

    def cover(self, name, fn):
        self.covers.append((name, fn))

    def fold(self, name, init, step, real=True, bits=64, at=None, auto=True):
        f = Fold(self, name, init, step, real, bits).start(at)
        if not auto:
            self.folds.remove(f)
        return f

    def rv(self, x):
        if isinstance(x, RV):
            return x
        if z3.is_bv(x):
            return RV(self.fp, self.fp.poly(x))
        if isinstance(x, (int, float, Fraction)):
            return RV(self.fp, Poly.const(Fraction(x)))
        return RV(self.fp, self.fp.atom(x))

    def i2r(self, x, signed=True):
        return self.rv(self.fp.i2r(x, signed))

    def lib(self, name, *xs):
        return self.rv(self.fp.rlib(name, *[self.rv(x).t() for x in xs]))

    # ---- integer products
    def mul(self, a, b):
        """a*b.  A product of two non-constants is an uninterpreted commutative function of its (un-extended) factors
        plus its range, unless mul_exact is set; the exact circuit is used when the abstraction is not enough."""
        if self.mul_exact or z3.is_bv_value(a) or z3.is_bv_value(b):
            return a * b
        W = a.size()

        def core(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_SIGN_EXT:
                return "s", x.children()[0]
            if k == z3.Z3_OP_ZERO_EXT:
                return "u", x.children()[0]
            if k == z3.Z3_OP_CONCAT and z3.is_bv_value(x.children()[0]) and x.children()[0].as_long() == 0 and len(x.children()) == 2:
                return "u", x.children()[1]
            return "", x
        sa, xa = core(a)
        sb, xb = core(b)
        self.mul_used = True
        if sa == sb and sa and xa.size() == xb.size() and W >= 2 * xa.size():
            w = xa.size()
            f = z3.Function("%smul%d" % (sa, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(2 * w))
            t = f(xa, xb)
            if t.get_id() not in self._mulseen:
                self._mulseen[t.get_id()] = t
                self.mul_axioms.append(t == f(xb, xa))
                if sa == "s":
                    self.mul_axioms.append(t <= BV(1 << (2 * w - 2), 2 * w))
                    self.mul_axioms.append(t >= BV(-(1 << (w - 1)) * ((1 << (w - 1)) - 1), 2 * w))
                else:
                    self.mul_axioms.append(z3.ULE(t, BV(((1 << w) - 1) ** 2, 2 * w)))
            if W == 2 * w:
                return t
            return z3.SignExt(W - 2 * w, t) if sa == "s" else z3.ZeroExt(W - 2 * w, t)
        f = z3.Function("mul%d" % W, z3.BitVecSort(W), z3.BitVecSort(W), z3.BitVecSort(W))
        if W == 64:
            a, b = norm(a), norm(b)
            if self.grids:      # products are linear in each factor
                for x, y in ((a, b), (b, a)):
                    d, k = lin(x)
                    if len(d) > 1 or (len(d) == 1 and next(iter(d.values()))[1] != 1):
                        s = c64(k) * y
                        for tm, co in d.values():
                            s = s + c64(co) * self.mul(tm, y)
                        return norm(s)
        t = f(a, b)
        if t.get_id() not in self._mulseen:
            self._mulseen[t.get_id()] = t
            self.mul_axioms.append(t == f(b, a))
            if W == 64:
                for R, C, S in self.grids:
                    for x, y in ((a, b), (b, a)):
                        if y.eq(C):
                            self.grid_axioms(f, x, R, C, S)
        return t

    def divrem(self, op, a, b):
        """unsigned quotient or remainder by a variable: an uninterpreted function with its elementary lemmas (exact circuit when they are not enough)"""
        W = a.size()
        if W == 64:
            a, b = norm(a), norm(b)
        q = z3.Function("udiv%d" % W, z3.BitVecSort(W), z3.BitVecSort(W), z3.BitVecSort(W))(a, b)
        r = z3.Function("urem%d" % W, z3.BitVecSort(W), z3.BitVecSort(W), z3.BitVecSort(W))(a, b)
        self.mul_used = True
        if r.get_id() not in self._mulseen:
            self._mulseen[r.get_id()] = r
            nz = b != 0
            self.mul_axioms += [z3.Implies(nz, z3.And(z3.ULT(r, b), z3.ULE(r, a), z3.ULE(q, a))),
                                z3.Implies(z3.ULT(a, b), z3.And(r == a, q == 0)),
                                z3.Implies(z3.And(nz, z3.UGE(a, b), z3.ULT(a - b, b)), z3.And(r == a - b, q == 1)),
                                z3.Implies(b == 1, z3.And(r == 0, q == a))]
        return q if op == "udiv" else r

    def grid_axioms(self, f, x, R, C, S):
        """rows of length C, R of them, S = R*C elements; arithmetic facts about x*C (S < 2^40, lemma grid in lemmas/)"""
        t = f(x, C)
        self.mul_axioms += [z3.Implies(z3.ULT(x, R), z3.And(z3.ULE(t, S - C), z3.ULE(C, S))),
                            z3.Implies(z3.ULE(x, R), z3.ULE(t, S)),
                            z3.Implies(z3.Or(x == 0, C == 0), t == 0),
                            f(norm(x + c64(1)), C) == t + C]

    def grid(self, rows, cols):
        """a dense matrix; returns its number of elements"""
        rows, cols = norm(rows), norm(cols)
        if self.mul_exact:
            S = rows * cols
        else:
            f = z3.Function("mul64", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
            S = f(rows, cols)
            self.mul_axioms += [S == f(cols, rows), z3.Implies(z3.Or(rows == 0, cols == 0), S == 0),
                                z3.Implies(z3.And(rows != 0, cols != 0), z3.And(z3.UGE(S, rows), z3.UGE(S, cols)))]
        self.grids.append((rows, cols, S))
        self.req += [z3.ULT(rows, 1 << 31), z3.ULT(cols, 1 << 31), z3.ULT(S, 1 << 40)]
        return S

    def mul_ok(self, a, b):
        """the signed product is representable"""
        if self.mul_exact or z3.is_bv_value(a) or z3.is_bv_value(b):
            return z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
        self.mul_used = True
        W = a.size()
        f = z3.Function("mulok%d" % W, z3.BitVecSort(W), z3.BitVecSort(W), z3.BoolSort())
        t = f(a, b)
        if t.get_id() not in self._mulseen:
            self._mulseen[t.get_id()] = t
            self.mul_axioms.append(t == f(b, a))
            one = BV(1, W)
            self.mul_axioms.append(z3.Implies(z3.Or(a == one, b == one, a == 0, b == 0), t))
        return t

    def mul_is_exact(self, a, b):
        """syntactically free of overflow"""
        def core(x):
            k = x.decl().kind()
            return x.children()[0].size() if k in (z3.Z3_OP_SIGN_EXT,) else None
        ca, cb = core(a), core(b)
        return ca is not None and cb is not None and ca + cb <= a.size()

    # ---- callees used through contracts
    def callee(self, regex, handler):
        self.callees.append((re.compile(regex), handler))

    def callee_for(self, n):
        for r, h in self.callees:
            if r.search(n):
                return h
        return None

    def hint(self, fn):
        self.hints.append(fn)


class Contract:
    def __init__(self, prop, fn, setup, fpmode=None, variant="", lib="core", keep=(), search=None, doc="", timeout=60,
                 what="", tier="quick", skey=None, cost=1, wall=240, nlib=None, unroll=0, bounded=None):
        # integer-only properties: should the code take a detour through floating point it is judged bit-precisely
        fpmode = fpmode or ("ieee" if prop in ("C01", "C02", "C03", "C05", "C06") else "uf")
        self.prop, self.fn, self.setup, self.fpmode, self.variant = prop, fn, setup, fpmode, variant
        self.lib, self.keep, self.search, self.doc, self.timeout = lib, keep, search, doc, timeout
        self.what = what
        self.tier = tier
        self.unroll = unroll
        self.bounded = bounded      # not proved: the native search decides, within the bound stated here
        self.skey, self.cost, self.wall = skey, cost, wall
        self.nlib = nlib or lib      # library the native executions use

    @property
    def name(self):
        return self.fn + (":" + self.variant if self.variant else "")
